From d67c68c150a439487591d0a935df9c0c506d31e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:53 +0000
Subject: [PATCH 01/13] fix: write certificate options in lexical order of
 their names

---
 src/ssh/writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ssh/writer.rs b/src/ssh/writer.rs
index 523ce77..6b2e1e4 100644
--- a/src/ssh/writer.rs
+++ b/src/ssh/writer.rs
@@ -196,7 +196,11 @@ impl Writer {
 
         self.write_u32(total_length);
 
-        for (k, v) in map {
+        // Options must appear in lexical order of their names
+        let mut entries: Vec<(&String, &String)> = map.iter().collect();
+        entries.sort();
+
+        for (k, v) in entries {
             self.write_string(k);
             if v.is_empty() {
                 self.write_u32(0x0);
-- 
2.43.0


From 9bd31488b7baddfe938cc627a67e34aed3cba562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:32 +0000
Subject: [PATCH 02/13] fix: reject RSA private keys whose factors are zero or
 one instead of panicking

---
 src/ssh/privkey.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 9a31f4a..7f3e1f1 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -304,6 +304,15 @@ impl PrivateKey {
                 let p = reader.read_positive_mpint()?;
                 let q = reader.read_positive_mpint()?;
 
+                // The CRT exponents below are taken modulo p - 1 and q - 1, so
+                // anything that isn't greater than one can't be a prime factor.
+                #[cfg(feature = "rsa-signing")]
+                if BigUint::from_bytes_be(&p) <= BigUint::from(1_u8)
+                    || BigUint::from_bytes_be(&q) <= BigUint::from(1_u8)
+                {
+                    return Err(Error::InvalidFormat);
+                }
+
                 #[cfg(feature = "rsa-signing")]
                 let exp = Some(
                     BigUint::from_bytes_be(&d)
-- 
2.43.0


From 983fc4ff07793bbab3eb2c98b4c3f8e916e03024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:32 +0000
Subject: [PATCH 03/13] fix: do not panic when signing with an empty ECDSA or
 short Ed25519 private key

---
 src/ssh/privkey.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 7f3e1f1..acb6d21 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -253,7 +253,7 @@ impl super::SSHCertificateSigner for PrivateKey {
                     _ => return None,
                 };
 
-                let key = if key.key[0] == 0x0_u8 {
+                let key = if key.key.first() == Some(&0x0_u8) {
                     &key.key[1..]
                 } else {
                     &key.key
@@ -273,11 +273,11 @@ impl super::SSHCertificateSigner for PrivateKey {
                     _ => return None,
                 };
 
-                let key_pair =
-                    match Ed25519KeyPair::from_seed_and_public_key(&key.key[..32], public_key) {
-                        Ok(kp) => kp,
-                        Err(_) => return None,
-                    };
+                let seed = key.key.get(..32)?;
+                let key_pair = match Ed25519KeyPair::from_seed_and_public_key(seed, public_key) {
+                    Ok(kp) => kp,
+                    Err(_) => return None,
+                };
 
                 format_signature_for_ssh(&self.pubkey, key_pair.sign(buffer).as_ref())
             }
-- 
2.43.0


From f103bc417dedc2706d3c994325b9abd5d936730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:32 +0000
Subject: [PATCH 04/13] fix: keep the reserved data of hardware backed private
 keys when encoding them

---
 src/ssh/privkey.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index acb6d21..b6e551f 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -686,7 +686,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ecdsask.flags]);
                 w.write_bytes(&ecdsask.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ecdsask.reserved);
             }
             PrivateKeyKind::Ed25519(ed25519) => {
                 w.write_pub_key_data(&self.pubkey);
@@ -696,7 +696,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ed25519sk.flags]);
                 w.write_bytes(&ed25519sk.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ed25519sk.reserved);
             }
         };
 
-- 
2.43.0


From d3a23d49819443d60d015bed220110bc1b03062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:33 +0000
Subject: [PATCH 05/13] fix: store generated Ed25519 keys as seed followed by
 public key

---
 src/ssh/privkey.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index b6e551f..168ef18 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -461,7 +461,10 @@ impl PrivateKey {
                     .public_key()
                     .as_ref()
                     .to_vec();
-                let key = Ed25519PrivateKey { key: seed.to_vec() };
+                // OpenSSH stores the seed followed by the public key
+                let key = Ed25519PrivateKey {
+                    key: [&seed[..], &public_key_bytes[..]].concat(),
+                };
 
                 let pubkey = PublicKey {
                     key_type: key_type.clone(),
-- 
2.43.0


From 1b0eb223a5eedee74fb34ddb3d4fd98dd0458b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:57 +0000
Subject: [PATCH 06/13] fix: keep both coordinates of elliptic curve keys in
 FIDO authenticator data

---
 src/fido/parsing.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fido/parsing.rs b/src/fido/parsing.rs
index cbef08b..b3f87e9 100644
--- a/src/fido/parsing.rs
+++ b/src/fido/parsing.rs
@@ -147,6 +147,7 @@ impl AuthData {
             }
 
             let mut parsed_key = CoseKey::default();
+            let mut y_coordinate = None;
             let mut idx = 0;
 
             // Multiply by two because maps have two entries per element
@@ -176,14 +177,19 @@ impl AuthData {
                         })?
                     }
                     -2 | -3 => {
-                        parsed_key.key = decoder
+                        let coordinate = decoder
                             .bytes()
                             .map_err(|_| {
                                 Error::FidoError(super::Error::CborFormat(
                                     "Could not bytes for key -2|-3 (key)".to_owned(),
                                 ))
                             })?
-                            .to_vec()
+                            .to_vec();
+                        if key == -2 {
+                            parsed_key.key = coordinate;
+                        } else {
+                            y_coordinate = Some(coordinate);
+                        }
                     }
                     x => decoder.undefined().map_err(|e| {
                         Error::FidoError(super::Error::CborFormat(format!(
@@ -193,6 +199,11 @@ impl AuthData {
                 };
                 idx += 2;
             }
+            // A key with both coordinates is an uncompressed elliptic curve point
+            if let Some(y) = y_coordinate {
+                parsed_key.key.insert(0, 0x04);
+                parsed_key.key.extend(y);
+            }
             Some(parsed_key)
         } else {
             None
-- 
2.43.0


From 9bff79ac767949e4cc27dada86720e96eab7b482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:57 +0000
Subject: [PATCH 07/13] fix: report the internal USB transport of FIDO
 attestations

---
 src/fido/verification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/verification.rs b/src/fido/verification.rs
index 5b272aa..18892d5 100644
--- a/src/fido/verification.rs
+++ b/src/fido/verification.rs
@@ -114,7 +114,7 @@ fn extract_certificate_extension_data(
                 let (_, obj) = parse_ber_bitstring(ext.value).map_err(|_| Error::ParsingError)?;
                 if let BerObjectContent::BitString(_, bs) = obj.content {
                     let mut transports = vec![];
-                    for transport in 0..4 {
+                    for transport in 0..=4 {
                         if !bs.is_set(transport) {
                             continue;
                         }
-- 
2.43.0


From fc6e793773d28d2ff595d528cdbbfbe3ea5587f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:57 +0000
Subject: [PATCH 08/13] fix: do not panic on a short policy extension in a PIV
 attestation

---
 src/yubikey/verification.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 8722d91..2232045 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -81,6 +81,9 @@ fn extract_certificate_extension_data(
             }
             // Policy
             "1.3.6.1.4.1.41482.3.8" => {
+                if ext.value.len() < 2 {
+                    continue;
+                }
                 policies = Some([ext.value[0], ext.value[1]]);
             }
             _ => (),
-- 
2.43.0


From d1ac5ba086029f4931ed61cd5c07a3a49a20ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:57 +0000
Subject: [PATCH 09/13] fix: do not panic on a malformed PIV root certificate

---
 src/yubikey/verification.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 2232045..925f87b 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -117,8 +117,8 @@ pub fn verify_certificate_chain(
     let root_ca_pem = root_pem.unwrap_or(YUBICO_PIV_ROOT_CA);
 
     // Parse the root ca
-    let (_, root_ca) = parse_x509_pem(root_ca_pem.as_bytes()).unwrap();
-    let root_ca = Pem::parse_x509(&root_ca).unwrap();
+    let (_, root_ca) = parse_x509_pem(root_ca_pem.as_bytes()).map_err(|_| Error::ParsingError)?;
+    let root_ca = Pem::parse_x509(&root_ca).map_err(|_| Error::ParsingError)?;
 
     // Parse the certificates
     let (_, parsed_intermediate) =
-- 
2.43.0


From 3db7699f4978b2a38b43521916d298c66b4fd785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:57 +0000
Subject: [PATCH 10/13] fix: do not panic on local times that a time zone skips
 or repeats

---
 src/ssh/allowed_signer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 96d4bab..c664162 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -461,7 +461,8 @@ fn parse_timestamp(s: &str) -> Result<i64> {
             .timestamp()
     } else {
         datetime.and_local_timezone(Local)
-            .unwrap()
+            .earliest()
+            .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp))?
             .timestamp()
     };
 
-- 
2.43.0


From c927b4aa92079b8a972a7f9a2f3a17f85d27abe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:57 +0000
Subject: [PATCH 11/13] fix: accept only one Z at the end of an allowed signers
 timestamp

---
 src/ssh/allowed_signer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index c664162..f6f2bd0 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -437,7 +437,7 @@ fn parse_timestamp(s: &str) -> Result<i64> {
         return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp));
     }
     if is_utc {
-        s = s.trim_end_matches('Z');
+        s = &s[..s.len() - 1];
     }
     let datetime = match s.len() {
         8 => {
-- 
2.43.0


From e99e1a94e677a89d8db9cbf854a5bc8bf29aef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:52 +0000
Subject: [PATCH 12/13] fix: accept allowed signers lines whose trailing
 comment ends with a quote

---
 src/ssh/allowed_signer.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index f6f2bd0..6c97a67 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -343,14 +343,12 @@ impl AllowedSignerSplitter {
             return Ok(None);
         }
 
-        // If the next token starts with a double quote, then the closing double quote is also
-        // the end of the token
-        if self.buffer[0] == "\"" {
-            if opening_quotes_allowed {
-                return self.split_quote().map(|v| Some(v));
-            } else {
-                return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
-            }
+        // Only principals can start with a double quote
+        if !opening_quotes_allowed
+            && self.buffer.last().map_or(false, |next| next == "\"")
+            && self.buffer[0] == "\""
+        {
+            return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
         }
 
         // If the next token doesn't start with a double quote, the token can represent an option.
-- 
2.43.0


From 56897d9adc1a03ddee26591f0bcfb8a752b31ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:50 +0000
Subject: [PATCH 13/13] fix: sign with ECDSA keys whose scalar has leading zero
 bytes

OpenSSH stores the private scalar as an integer, so about one key in 256
has fewer bytes than the field size. ring only takes the full width and
signing with such a key silently returned nothing.
---
 src/ssh/privkey.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 168ef18..5e6de5e 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -7,7 +7,7 @@ use std::path::Path;
 use ring::signature::Ed25519KeyPair;
 use ring::{rand, signature, signature::KeyPair};
 
-use zeroize::Zeroize;
+use zeroize::{Zeroize, Zeroizing};
 
 use crate::{
     error::Error,
@@ -242,9 +242,9 @@ impl super::SSHCertificateSigner for PrivateKey {
             #[cfg(not(feature = "rsa-signing"))]
             PrivateKeyKind::Rsa(_) => return None,
             PrivateKeyKind::Ecdsa(key) => {
-                let alg = match key.curve.kind {
-                    CurveKind::Nistp256 => &signature::ECDSA_P256_SHA256_ASN1_SIGNING,
-                    CurveKind::Nistp384 => &signature::ECDSA_P384_SHA384_ASN1_SIGNING,
+                let (alg, len) = match key.curve.kind {
+                    CurveKind::Nistp256 => (&signature::ECDSA_P256_SHA256_ASN1_SIGNING, 32_usize),
+                    CurveKind::Nistp384 => (&signature::ECDSA_P384_SHA384_ASN1_SIGNING, 48),
                     CurveKind::Nistp521 => return None,
                 };
 
@@ -258,8 +258,13 @@ impl super::SSHCertificateSigner for PrivateKey {
                 } else {
                     &key.key
                 };
+
+                // The scalar is stored without leading zeros but ring needs all of its bytes
+                let mut scalar = Zeroizing::new(vec![0; len.checked_sub(key.len())?]);
+                scalar.extend_from_slice(key);
+
                 let key_pair = match signature::EcdsaKeyPair::from_private_key_and_public_key(
-                    alg, key, pubkey, &rng,
+                    alg, &scalar, pubkey, &rng,
                 ) {
                     Ok(kp) => kp,
                     Err(_) => return None,
-- 
2.43.0

