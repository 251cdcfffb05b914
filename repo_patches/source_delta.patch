From f2d9491e9b9eae44d2a98e4bf58dca7034a10d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:00 +0000
Subject: [PATCH 01/16] verif: add hooks for the conformance harness behind
 cfg(http_ntlm_verif)

---
 src/client.rs | 18 ++++++++++++++++++
 src/lib.rs    |  3 +++
 src/verif.rs  | 18 ++++++++++++++++++
 3 files changed, 39 insertions(+)
 create mode 100644 src/verif.rs

diff --git a/src/client.rs b/src/client.rs
index 117a26c..dccf59c 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -295,6 +295,24 @@ where
     }
 }
 
+#[cfg(http_ntlm_verif)]
+impl<V> Client<V> {
+    /// Sets the version to announce, which has no public setter yet.
+    pub fn verif_set_version(&mut self, version: Option<Version>) {
+        self.version = version;
+    }
+
+    /// The exported session key of the authenticate message kept by the client.
+    pub fn verif_exported_session_key(&self) -> Option<Vec<u8>> {
+        match self.state {
+            ClientState::AuthenticateSent(_, _, ref a) => {
+                a.exported_session_key.as_ref().map(|k| k.to_vec())
+            }
+            _ => None,
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 31511ab..dba6fb0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,3 +8,6 @@ pub mod messages;
 
 #[cfg(target_family = "windows")]
 mod win;
+
+#[cfg(http_ntlm_verif)]
+pub mod verif;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..cae8ff8
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,18 @@
+//! Hooks for the conformance harness; only compiled with `--cfg http_ntlm_verif`.
+//!
+//! `Wire` is private to the crate, these functions make encoding and decoding of the public
+//! message and structure types reachable from outside.
+
+use crate::messages::Wire;
+
+/// Encodes `value` as it would be on the wire.
+#[allow(private_bounds)]
+pub fn encode<'a, T: Wire<'a>>(value: &T) -> Vec<u8> {
+    value.serialize()
+}
+
+/// Decodes a `T`, gives back the bytes that were not consumed and the value.
+#[allow(private_bounds)]
+pub fn decode<'a, T: Wire<'a>>(input: &'a [u8]) -> Result<(&'a [u8], T), String> {
+    T::deserialize::<nom::error::VerboseError<&'a [u8]>>(input).map_err(|_| "error".to_owned())
+}
-- 
2.43.0


From a26ea30677e4d41d941ff005358ec4e8dc86ce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:16 +0000
Subject: [PATCH 02/16] fix: report payload fields that lie outside of the
 message instead of panicking

---
 src/messages/field.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/messages/field.rs b/src/messages/field.rs
index b76411f..e755fb6 100644
--- a/src/messages/field.rs
+++ b/src/messages/field.rs
@@ -55,6 +55,19 @@ impl Field {
         start..end
     }
 
+    fn get_payload<'a, E>(&self, input: &'a [u8]) -> Result<&'a [u8], nom::Err<E>>
+    where
+        E: NomError<'a>,
+    {
+        input.get(self.get_range()).ok_or_else(|| {
+            nom::Err::Error(E::add_context(
+                input,
+                "Field::get_payload",
+                E::from_error_kind(input, nom::error::ErrorKind::Eof),
+            ))
+        })
+    }
+
     pub(super) fn get_data_if<'a, T, E>(
         &self,
         typename: &'static str,
@@ -70,7 +83,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(None)
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_payload(input)?;
                 let (rest, value) =
                     context(typename, context("Field::get_data", T::deserialize))(data)?;
                 if !rest.is_empty() {
@@ -102,7 +115,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(Vec::new())
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_payload(input)?;
                 let (rest, value) = context("Field::get_data", many0(T::deserialize))(data)?;
                 if !rest.is_empty() {
                     log::warn!(
-- 
2.43.0


From 8352f4dd6da3f8b345aa0892454c710fc296973b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:36 +0000
Subject: [PATCH 03/16] fix: reject AV pairs whose value is not fully consumed
 instead of asserting

---
 src/messages/structures/avid.rs | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index 03ac26c..293f5b1 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -2,7 +2,7 @@ use std::io;
 use std::mem::size_of;
 
 use nom::bytes::complete::take;
-use nom::combinator::{map_opt, verify};
+use nom::combinator::{all_consuming, map_opt, verify};
 use nom::error::context;
 use nom::multi::length_data;
 use nom::number::complete::{le_u16, le_u32};
@@ -240,54 +240,44 @@ impl<'a> Wire<'a> for AvPair {
                 Ok((rest, Self::MsvAvEOL))
             }
             AvId::MsvAvNbComputerName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvNbComputerName(s.into())))
             }
             AvId::MsvAvNbDomainName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvNbDomainName(s.into())))
             }
             AvId::MsvAvDnsComputerName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsComputerName(s.into())))
             }
             AvId::MsvAvDnsDomainName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsDomainName(s.into())))
             }
             AvId::MsvAvDnsTreeName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsTreeName(s.into())))
             }
             AvId::MsvAvFlags => {
-                let (r, f) = MsvAvFlags::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, f) = all_consuming(MsvAvFlags::deserialize)(data)?;
                 Ok((rest, Self::MsvAvFlags(f)))
             }
             AvId::MsvAvTimestamp => {
-                let (r, ts) = FileTime::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, ts) = all_consuming(FileTime::deserialize)(data)?;
                 Ok((rest, Self::MsvAvTimestamp(ts)))
             }
             AvId::MsvAvSingleHost => {
-                let (r, shd) = SingleHostData::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, shd) = all_consuming(SingleHostData::deserialize)(data)?;
                 Ok((rest, Self::MsvAvSingleHost(shd)))
             }
             AvId::MsvAvTargetName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvTargetName(s.into())))
             }
             AvId::MsvAvChannelBindings => {
                 let mut buf = [0u8; 16];
-                let (r, s) = take(buf.len())(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(take(buf.len()))(data)?;
                 buf.copy_from_slice(s);
                 Ok((rest, Self::MsvAvChannelBindings(buf)))
             }
-- 
2.43.0


From 15090141981a53de2b8516cda69c432fe1d652a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:38 +0000
Subject: [PATCH 04/16] fix: decode characters outside of the BMP (surrogate
 pairs) in Unicode strings

---
 src/messages/unicode_string.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/messages/unicode_string.rs b/src/messages/unicode_string.rs
index fe42c04..ee03b66 100644
--- a/src/messages/unicode_string.rs
+++ b/src/messages/unicode_string.rs
@@ -2,10 +2,12 @@ use std::fmt;
 use std::io;
 use std::ops::{Deref, DerefMut};
 
+use nom::branch::alt;
 use nom::combinator::{map, map_opt};
 use nom::error::context;
 use nom::multi::fold_many0;
 use nom::number::complete::le_u16;
+use nom::sequence::pair;
 
 use crate::messages::{utils::write_u16, Wire};
 
@@ -109,13 +111,22 @@ impl<'a> Wire<'a> for UnicodeString {
             "Unicode string",
             map(
                 fold_many0(
-                    map_opt(le_u16, |b| {
-                        if b == 0 {
-                            None
-                        } else {
-                            char::decode_utf16(std::iter::once(b)).next().unwrap().ok()
-                        }
-                    }),
+                    alt((
+                        map_opt(le_u16, |b| {
+                            if b == 0 {
+                                None
+                            } else {
+                                char::decode_utf16(std::iter::once(b)).next().unwrap().ok()
+                            }
+                        }),
+                        map_opt(pair(le_u16, le_u16), |(high, low)| {
+                            // Only a surrogate pair: other units are decoded one by one above
+                            match char::decode_utf16([high, low]).next() {
+                                Some(Ok(c)) if c.len_utf16() == 2 => Some(c),
+                                _ => None,
+                            }
+                        }),
+                    )),
                     String::new,
                     |mut acc: String, c| {
                         acc.push(c);
-- 
2.43.0


From 7c7e895faea9917af143fa45d02863a813512d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:40 +0000
Subject: [PATCH 05/16] fix: do not panic on non-ASCII passwords when computing
 the LM hash

---
 src/crypto/lm.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/crypto/lm.rs b/src/crypto/lm.rs
index 8dcb7ae..6e96c47 100644
--- a/src/crypto/lm.rs
+++ b/src/crypto/lm.rs
@@ -1,15 +1,9 @@
 use super::des::des7_encrypt;
 
-fn prepare_password(password: &str) -> String {
-    if password.len() < 14 {
-        let mut p = password.to_uppercase();
-        while p.len() < 14 {
-            p.push('\0');
-        }
-        p
-    } else {
-        (&password[..14]).to_uppercase()
-    }
+fn prepare_password(password: &str) -> Vec<u8> {
+    let mut p = password.to_uppercase().into_bytes();
+    p.resize(14, 0);
+    p
 }
 
 pub type LmHash = [u8; 16];
@@ -20,8 +14,8 @@ pub fn lmowfv1(password: &str) -> LmHash {
     let password = prepare_password(password);
     let (key1, key2) = password.split_at(7);
 
-    des7_encrypt(key1.as_bytes(), &magic[..], &mut lm_hash[..8]);
-    des7_encrypt(key2.as_bytes(), &magic[..], &mut lm_hash[8..]);
+    des7_encrypt(key1, &magic[..], &mut lm_hash[..8]);
+    des7_encrypt(key2, &magic[..], &mut lm_hash[8..]);
 
     lm_hash
 }
-- 
2.43.0


From 8c3cb421a6a669c21e0e4d640ddaabfffa2eccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 06/16] fix: without extended session security, do not mix the
 server challenge into the key exchange key

---
 src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index dccf59c..560f8e9 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -182,7 +182,10 @@ where
             &session_base_key,
             &lm_challenge.response[..8],
             &self.lm_hash,
-            Some(&challenge.server_challenge),
+            challenge
+                .negotiate_flags
+                .has_flag(flags::NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY)
+                .then_some(&challenge.server_challenge),
         );
 
         let (exported_session_key, encrypted_random_session_key) =
-- 
2.43.0


From 0feb6c0d182c4b30d80d4e6aff922df9f5d8b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 07/16] fix: only send an encrypted session key when key
 exchange was negotiated

---
 src/client.rs | 15 ++++++++++++---
 src/crypto.rs | 10 +++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 560f8e9..03e8c3e 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,7 +1,10 @@
 use std::marker::PhantomData;
 
 use crate::{
-    crypto::{encrypt_random_session_key, kxkey, lm::LmHash, nt::NtHash, ntlmv1, ntlmv2},
+    crypto::{
+        encrypt_random_session_key, exchanges_session_key, kxkey, lm::LmHash, nt::NtHash, ntlmv1,
+        ntlmv2,
+    },
     messages::{
         flags,
         structures::{AvPair, ClientChallenge, Version},
@@ -198,7 +201,10 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            exchanges_session_key(&challenge.negotiate_flags)
+                .then_some(encrypted_random_session_key),
+        );
         // auth.mic = mic;
         auth.exported_session_key = Some(exported_session_key);
         auth
@@ -238,7 +244,10 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            exchanges_session_key(&challenge.negotiate_flags)
+                .then_some(encrypted_random_session_key),
+        );
         auth.exported_session_key = Some(exported_session_key);
         auth.compute_mic(negotiate, challenge);
 
diff --git a/src/crypto.rs b/src/crypto.rs
index 3ab229e..85b0d18 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -89,14 +89,18 @@ pub fn kxkey(
     key_exchange_key
 }
 
+/// Whether a random session key is to be exchanged (MS-NLMP 3.1.5.1.2)
+pub fn exchanges_session_key(flags: &Flags) -> bool {
+    flags.has_flag(NTLMSSP_NEGOTIATE_KEY_EXCH)
+        && (flags.has_flag(NTLMSSP_NEGOTIATE_SIGN) || flags.has_flag(NTLMSSP_NEGOTIATE_SEAL))
+}
+
 pub fn encrypt_random_session_key(
     flags: &Flags,
     key_exchange_key: &KeyExchangeKey,
     exported_session_key: Option<ExportedSessionKey>,
 ) -> (ExportedSessionKey, EncryptedRandomSessionKey) {
-    if flags.has_flag(NTLMSSP_NEGOTIATE_KEY_EXCH)
-        && (flags.has_flag(NTLMSSP_NEGOTIATE_SIGN) || flags.has_flag(NTLMSSP_NEGOTIATE_SEAL))
-    {
+    if exchanges_session_key(flags) {
         let exported_session_key = if let Some(e) = exported_session_key {
             e
         } else {
-- 
2.43.0


From 94d9f0b8a5712105fa899eb83dda779609583ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 08/16] fix: send the negotiated flags in NTLMv2 authenticate
 messages as well

---
 src/client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client.rs b/src/client.rs
index 03e8c3e..3c0b701 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -239,6 +239,7 @@ where
             encrypt_random_session_key(&challenge.negotiate_flags, &key_exchange_key, None);
 
         let mut auth = Authenticate::default();
+        auth.negotiate_flags = challenge.negotiate_flags;
         auth.lm_challenge_response = Some(lm_challenge.into());
         auth.nt_challenge_response = Some(nt_challenge.into());
         auth.domain = Some(self.domain.clone().into());
-- 
2.43.0


From c8b415e6d00e7d300c298c9e1b3bf9c48eedc409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:16 +0000
Subject: [PATCH 09/16] fix: do not claim a version in the authenticate message
 when none is sent

---
 src/client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index 3c0b701..3cf20db 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -294,6 +294,10 @@ where
             auth.negotiate_flags
                 .set_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
             auth.version = Some(v);
+        } else {
+            // The challenge may have it, but no version is sent
+            auth.negotiate_flags
+                .clear_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
         }
         auth.negotiate_flags
             .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
-- 
2.43.0


From bf98610435341a2a55bac6fa69cb3aff635f5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 10/16] fix: always announce Unicode in the authenticate
 message, its strings are UTF-16

---
 src/client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index 3cf20db..84f0c51 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -301,6 +301,9 @@ where
         }
         auth.negotiate_flags
             .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
+        // All strings are sent as UTF-16
+        auth.negotiate_flags
+            .set_flag(flags::NTLMSSP_NEGOTIATE_UNICODE);
         auth.negotiate_flags.clear_flag(flags::NTLM_NEGOTIATE_OEM);
         auth.negotiate_flags
             .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
-- 
2.43.0


From 41d8b729a49122cee6e284ed775b3c6614656cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 11/16] fix: compute the MIC over the final authenticate
 message

---
 src/client.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 84f0c51..186c548 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -211,7 +211,6 @@ where
     }
 
     fn send_authenticate_ntlmv2(&mut self, client_challenge: ClientChallenge) -> Authenticate {
-        let negotiate = self.get_negotiate();
         let challenge = self.get_challenge();
         let mut time = None;
         for val in &challenge.target_infos[..] {
@@ -250,7 +249,6 @@ where
                 .then_some(encrypted_random_session_key),
         );
         auth.exported_session_key = Some(exported_session_key);
-        auth.compute_mic(negotiate, challenge);
 
         auth
     }
@@ -308,6 +306,10 @@ where
         auth.negotiate_flags
             .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
         auth.negotiate_flags.set_flag(flags::NTLMSSP_REQUEST_TARGET);
+        // The MIC covers the message as it is sent, so this has to come last
+        if V::version() > 2 {
+            auth.compute_mic(self.get_negotiate(), self.get_challenge());
+        }
         self.buffer.clear();
         auth.serialize_into(&mut self.buffer).unwrap();
         self.set_authenticated_state(auth);
-- 
2.43.0


From eb65a53870ba16390a2faea6dccb264dd726280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 12/16] fix: send the NTLMv2 proof, and the blob exactly as it
 was proven, in the NT response

---
 src/client.rs                           | 10 ++++--
 src/crypto/ntlmv2.rs                    |  7 ++--
 src/messages/structures.rs              |  2 +-
 src/messages/structures/nt_challenge.rs | 46 ++++++++++++++++++++++++-
 4 files changed, 58 insertions(+), 7 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 186c548..900d331 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -7,7 +7,7 @@ use crate::{
     },
     messages::{
         flags,
-        structures::{AvPair, ClientChallenge, Version},
+        structures::{AvPair, ClientChallenge, Ntv2Response, Version},
         Authenticate, Challenge, Negotiate, Wire,
     },
     NtlmVersion,
@@ -240,7 +240,13 @@ where
         let mut auth = Authenticate::default();
         auth.negotiate_flags = challenge.negotiate_flags;
         auth.lm_challenge_response = Some(lm_challenge.into());
-        auth.nt_challenge_response = Some(nt_challenge.into());
+        auth.nt_challenge_response = Some(
+            Ntv2Response {
+                nt_proof_str,
+                challenge: nt_challenge,
+            }
+            .into(),
+        );
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
diff --git a/src/crypto/ntlmv2.rs b/src/crypto/ntlmv2.rs
index 61d748c..4afc6d5 100644
--- a/src/crypto/ntlmv2.rs
+++ b/src/crypto/ntlmv2.rs
@@ -22,13 +22,14 @@ pub fn compute_response(
     server_name: &[AvPair],
 ) -> (NtProofStr, Lmv2Challenge, Ntv2Challenge, SessionBaseKey) {
     // TODO: handle anonymous authentication if user and password are empty
-    let nt_challenge = Ntv2Challenge {
+    let mut nt_challenge = Ntv2Challenge {
         timestamp: time.map(|ts| ts.clone()).unwrap_or_else(FileTime::now),
         challenge_from_client: client_challenge.clone(),
         target_infos: server_name.to_vec(),
     };
-    let mut temp = nt_challenge.serialize();
-    temp.extend_from_slice(&[0, 0, 0, 0][..]);
+    // The blob ends with 4 null bytes after the server name, which are encoded like a terminator
+    nt_challenge.target_infos.push(AvPair::MsvAvEOL);
+    let temp = nt_challenge.serialize();
     let mut input = Vec::from(&**server_challenge);
     input.extend_from_slice(&temp[..]);
 
diff --git a/src/messages/structures.rs b/src/messages/structures.rs
index d0d7291..3a0597d 100644
--- a/src/messages/structures.rs
+++ b/src/messages/structures.rs
@@ -13,7 +13,7 @@ mod lm_challenge;
 pub use lm_challenge::{LmChallenge, Lmv1Challenge, Lmv2Challenge};
 
 mod nt_challenge;
-pub use nt_challenge::{NtChallenge, Ntv1Challenge, Ntv2Challenge};
+pub use nt_challenge::{NtChallenge, Ntv1Challenge, Ntv2Challenge, Ntv2Response};
 
 mod version;
 pub use version::Version;
diff --git a/src/messages/structures/nt_challenge.rs b/src/messages/structures/nt_challenge.rs
index 971bb5d..50b3aae 100644
--- a/src/messages/structures/nt_challenge.rs
+++ b/src/messages/structures/nt_challenge.rs
@@ -7,7 +7,7 @@ use nom::number::complete::{le_u16, le_u32, le_u8};
 use nom::sequence::{preceded, tuple};
 
 use crate::messages::{
-    structures::{AvPair, ClientChallenge, FileTime, Response24},
+    structures::{AvPair, ClientChallenge, FileTime, NtProofStr, Response24},
     utils::{write_u16, write_u32, write_u8},
     NomError, Wire,
 };
@@ -98,10 +98,46 @@ impl<'a> Wire<'a> for Ntv2Challenge {
     }
 }
 
+/// NTLMv2_RESPONSE (MS-NLMP 2.2.2.8): the proof and the blob it was computed over
+#[derive(Debug, Default, Clone, PartialEq, Eq)]
+pub struct Ntv2Response {
+    pub nt_proof_str: NtProofStr,
+    pub challenge: Ntv2Challenge,
+}
+
+impl<'a> Wire<'a> for Ntv2Response {
+    fn serialize_into<W>(&self, writer: &mut W) -> io::Result<usize>
+    where
+        W: io::Write,
+    {
+        let mut size = self.nt_proof_str.serialize_into(writer)?;
+        size += self.challenge.serialize_into(writer)?;
+        Ok(size)
+    }
+
+    fn deserialize<E>(input: &'a [u8]) -> nom::IResult<&'a [u8], Self, E>
+    where
+        E: NomError<'a>,
+    {
+        let (rest, (nt_proof_str, challenge)) = context(
+            "Ntv2Response",
+            tuple((NtProofStr::deserialize, Ntv2Challenge::deserialize)),
+        )(input)?;
+        Ok((
+            rest,
+            Self {
+                nt_proof_str,
+                challenge,
+            },
+        ))
+    }
+}
+
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub enum NtChallenge {
     V1(Ntv1Challenge),
     V2(Ntv2Challenge),
+    V2Response(Ntv2Response),
 }
 
 impl Default for NtChallenge {
@@ -122,6 +158,12 @@ impl From<Ntv2Challenge> for NtChallenge {
     }
 }
 
+impl From<Ntv2Response> for NtChallenge {
+    fn from(r: Ntv2Response) -> Self {
+        Self::V2Response(r)
+    }
+}
+
 impl<'a> Wire<'a> for NtChallenge {
     fn serialize_into<W>(&self, writer: &mut W) -> std::io::Result<usize>
     where
@@ -130,6 +172,7 @@ impl<'a> Wire<'a> for NtChallenge {
         match self {
             Self::V1(ref v1) => v1.serialize_into(writer),
             Self::V2(ref v2) => v2.serialize_into(writer),
+            Self::V2Response(ref r) => r.serialize_into(writer),
         }
     }
 
@@ -139,6 +182,7 @@ impl<'a> Wire<'a> for NtChallenge {
     {
         alt((
             map(Ntv2Challenge::deserialize, |c| Self::V2(c)),
+            map(Ntv2Response::deserialize, |r| Self::V2Response(r)),
             map(Ntv1Challenge::deserialize, |c| Self::V1(c)),
         ))(input)
     }
-- 
2.43.0


From b789b5e05afc023bba1b3a6beff178e214de5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 13/16] fix: tell LMv2 from LMv1 responses by the NT response
 they come with

---
 src/messages/authenticate.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/messages/authenticate.rs b/src/messages/authenticate.rs
index 9dd3524..3f3eaef 100644
--- a/src/messages/authenticate.rs
+++ b/src/messages/authenticate.rs
@@ -142,7 +142,15 @@ impl<'a> Wire<'a> for Authenticate {
         )(rest)?;
         let (_, mic) = context("Authenticate/mic", Mic::deserialize)(rest)?;
 
-        let lm_challenge_response = if negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM) {
+        let nt_challenge_response =
+            nt_challenge_response_field.get_data_if("nt_challenge_response", input, true)?;
+        // Both responses are of the same generation, but only the NT one can be told from its content
+        let is_ntlmv1 = match nt_challenge_response {
+            Some(NtChallenge::V1(_)) => true,
+            Some(_) => false,
+            None => negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM),
+        };
+        let lm_challenge_response = if is_ntlmv1 {
             lm_challenge_response_field
                 .get_data_if::<Lmv1Challenge, E>("lmv1_challenge_response", input, true)
                 .ok()
@@ -155,8 +163,6 @@ impl<'a> Wire<'a> for Authenticate {
                 .flatten()
                 .map(|c| c.into())
         };
-        let nt_challenge_response =
-            nt_challenge_response_field.get_data_if("nt_challenge_response", input, true)?;
         let domain = domain_field.get_data_if("domain", input, true)?;
         let user = user_field.get_data_if("user", input, true)?;
         let workstation = workstation_field.get_data_if("workstation", input, true)?;
-- 
2.43.0


From 7582895221ac37f9b46d0779eda4c71d9d16eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 14/16] fix: count FILETIME in 100-nanosecond intervals since
 1601

---
 src/messages/structures/filetime.rs | 30 ++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/messages/structures/filetime.rs b/src/messages/structures/filetime.rs
index 76ec5d4..fbb2982 100644
--- a/src/messages/structures/filetime.rs
+++ b/src/messages/structures/filetime.rs
@@ -11,25 +11,41 @@ pub struct FileTime {
     pub low: u32,
     pub high: u32,
 }
-const NANO_TO_MILLI: u64 = 1_000_000;
+/// Number of 100-nanosecond intervals per second
+const TICKS_PER_SECOND: u64 = 10_000_000;
+/// Number of 100-nanosecond intervals between 1601-01-01 and 1970-01-01
+const UNIX_EPOCH_TICKS: u64 = 11_644_473_600 * TICKS_PER_SECOND;
 
 impl TryFrom<SystemTime> for FileTime {
     type Error = Option<SystemTimeError>;
 
     fn try_from(value: SystemTime) -> Result<Self, Self::Error> {
-        let seconds = value.duration_since(UNIX_EPOCH).map_err(Some)?.as_secs();
-        let nsec = seconds.checked_mul(NANO_TO_MILLI).ok_or(None)?;
+        let elapsed = value.duration_since(UNIX_EPOCH).map_err(Some)?;
+        let ticks = elapsed
+            .as_secs()
+            .checked_mul(TICKS_PER_SECOND)
+            .and_then(|t| t.checked_add(u64::from(elapsed.subsec_nanos()) / 100))
+            .and_then(|t| t.checked_add(UNIX_EPOCH_TICKS))
+            .ok_or(None)?;
         Ok(Self {
-            high: (nsec >> 32) as u32,
-            low: (nsec & 0xffff_ffff) as u32,
+            high: (ticks >> 32) as u32,
+            low: (ticks & 0xffff_ffff) as u32,
         })
     }
 }
 
 impl FileTime {
     pub fn to_system_time(&self) -> Option<SystemTime> {
-        let ts = self.as_u64() / NANO_TO_MILLI;
-        UNIX_EPOCH.checked_add(Duration::from_secs(ts))
+        let ticks = self.as_u64().abs_diff(UNIX_EPOCH_TICKS);
+        let distance = Duration::new(
+            ticks / TICKS_PER_SECOND,
+            (ticks % TICKS_PER_SECOND) as u32 * 100,
+        );
+        if self.as_u64() < UNIX_EPOCH_TICKS {
+            UNIX_EPOCH.checked_sub(distance)
+        } else {
+            UNIX_EPOCH.checked_add(distance)
+        }
     }
 
     pub fn as_u64(&self) -> u64 {
-- 
2.43.0


From d1b57873258b1424dc0408d6f7dacfa093f8f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 15/16] fix: make the strict feature reject forbidden flags

---
 src/messages/flags.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/messages/flags.rs b/src/messages/flags.rs
index ad18e92..2dbafd6 100644
--- a/src/messages/flags.rs
+++ b/src/messages/flags.rs
@@ -209,52 +209,52 @@ impl Flags {
 
         if flags.has_flag(R1) {
             log::warn!("flags.has_flag(R1)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R2) {
             log::warn!("flags.has_flag(R2)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R3) {
             log::warn!("flags.has_flag(R3)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R4) {
             log::warn!("flags.has_flag(R4)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R5) {
             log::warn!("flags.has_flag(R5)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R6) {
             log::warn!("flags.has_flag(R6)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R7) {
             log::warn!("flags.has_flag(R7)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R8) {
             log::warn!("flags.has_flag(R8)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R9) {
             log::warn!("flags.has_flag(R9)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R10) {
             log::warn!("flags.has_flag(R10)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -263,7 +263,7 @@ impl Flags {
             log::warn!(
                 "flags cannot have NTLMSSP_TARGET_TYPE_DOMAIN and NTLMSSP_TARGET_TYPE_SERVER"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -271,7 +271,7 @@ impl Flags {
             log::warn!(
                 "!flags.has_flag(NTLMSSP_NEGOTIATE_UNICODE) && !flags.has_flag(NTLM_NEGOTIATE_OEM)"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -279,7 +279,7 @@ impl Flags {
             && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)
         {
             log::warn!("flags.has_flag(NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY) && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         true
-- 
2.43.0


From c7036dbe1a14e640530c29598e2784a4092c5c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 16/16] fix: do not panic when /etc/hostname is empty

---
 src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 900d331..7124fb0 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -276,7 +276,7 @@ where
             return Some(computer_name);
         }
         let hostname = std::fs::read_to_string("/etc/hostname").ok()?;
-        let firstline = hostname.lines().next().unwrap();
+        let firstline = hostname.lines().next()?;
         if let Some((cn, _)) = firstline.split_once('.') {
             Some(cn.trim().to_uppercase())
         } else {
-- 
2.43.0

