From 437d4fc80098dbf62c9c0497b7fa7b22d52774e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 1/8] fix: refuse truncated or inconsistent messages instead of
 panicking in the reader

---
 src/reader.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d1c1539..07f6f6d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -42,6 +42,10 @@ pub(crate) fn read(
     incoming_data: &[u8],
     check_encrypt_state: bool,
 ) -> std::result::Result<DecryptedIncomingData, Error> {
+    if incoming_data.len() < MAGIC_VALUE_END {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
+
     // Decrypt data
     let data_encrypted;
     let mut buffer = BufWriter::new(Vec::with_capacity(incoming_data.len()));
@@ -61,20 +65,28 @@ pub(crate) fn read(
     let decrypted_data = buffer.into_inner().map_err(|_| Error::BufferFlushError)?;
 
     // Check magic value
+    if decrypted_data.len() < MAGIC_VALUE_END {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     if decrypted_data[..MAGIC_VALUE_END] != MAGIC_VALUE {
         return Err(IncomingMsgErr::InvalidMagicValue.into());
     }
 
     // Check version
+    if decrypted_data.len() < VERSION_END {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     if decrypted_data[MAGIC_VALUE_END..VERSION_END] != CURRENT_VERSION {
         return Err(IncomingMsgErr::UnsupportedVersion.into());
     }
 
     // Read ENCAPSULED_MSG_SIZE
+    if decrypted_data.len() < ENCAPSULED_MSG_BEGIN {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     let mut buffer_8_bytes: [u8; 8] = <[u8; 8]>::default();
     buffer_8_bytes.copy_from_slice(&decrypted_data[VERSION_END..ENCAPSULED_MSG_BEGIN]);
-    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes) as usize;
-    let user_msg_end = ENCAPSULED_MSG_BEGIN + encapsuled_msg_size;
+    let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes);
 
     // Read type headers
     let (msg_type_headers, type_headers_len) =
@@ -84,20 +96,31 @@ pub(crate) fn read(
         Err(Error::RecvInvalidMsg(
             IncomingMsgErr::UnexpectedEncryptionState,
         ))
+    } else if encapsuled_msg_size < type_headers_len as u64
+        || encapsuled_msg_size > (decrypted_data.len() - ENCAPSULED_MSG_BEGIN) as u64
+    {
+        Err(IncomingMsgErr::MessageTooShort.into())
     } else {
         Ok(DecryptedIncomingData {
             data: decrypted_data,
             user_msg_begin: ENCAPSULED_MSG_BEGIN + type_headers_len,
-            user_msg_end,
+            user_msg_end: ENCAPSULED_MSG_BEGIN + encapsuled_msg_size as usize,
             msg_type_headers,
         })
     }
 }
 
 fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
+    if type_headers.len() < MSG_TYPE_LEN {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
+
     // Match message type
     match &type_headers[..MSG_TYPE_LEN] {
         USER_MSG_TYPE => {
+            if type_headers.len() < MSG_TYPE_LEN + NONCE_SIZE {
+                return Err(IncomingMsgErr::MessageTooShort.into());
+            }
             let mut nonce = [0u8; NONCE_SIZE];
             nonce.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + NONCE_SIZE]);
             Ok((
@@ -108,6 +131,9 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
             ))
         }
         CONNECT_MSG_TYPE => {
+            if type_headers.len() < SIG_PUBKEY_BEGIN + 32 {
+                return Err(IncomingMsgErr::MessageTooShort.into());
+            }
             // Read PEER_EPHEMERAL_PUBKEY
             let mut peer_ephemeral_pk = [0u8; EPK_SIZE];
             peer_ephemeral_pk.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + EPK_SIZE]);
@@ -133,6 +159,9 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
             }
         }
         ACK_MSG_TYPE => {
+            if type_headers.len() < MSG_TYPE_LEN + CHALLENGE_SIZE {
+                return Err(IncomingMsgErr::MessageTooShort.into());
+            }
             let mut challenge = [0u8; CHALLENGE_SIZE];
             challenge
                 .copy_from_slice(&&type_headers[MSG_TYPE_LEN..(MSG_TYPE_LEN + CHALLENGE_SIZE)]);
-- 
2.43.0


From 92312a3d61f646e143a09b2c8dfbce16ff9f6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 2/8] fix: refuse encrypted data shorter than the
 authentication tag

---
 src/encryption/chacha20_poly1305_aead.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 7f8569c..6d08c80 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -15,6 +15,7 @@
 
 //! Manage cryptographic encryption operations with Chacha20Poly1305Aead algorithm.
 
+use crate::errors::IncomingMsgErr;
 use crate::seeds::Seed48;
 use crate::{Error, Result};
 use std::io::{BufWriter, Read, Write};
@@ -50,6 +51,9 @@ pub fn decrypt<W: Write>(
     secret_key: &SecretKey,
     writer: &mut BufWriter<W>,
 ) -> Result<()> {
+    if encrypted_data.len() < CHACHA20_TAG_SIZE {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     let payload_len = encrypted_data.len() - CHACHA20_TAG_SIZE;
 
     chacha20_poly1305_aead::decrypt(
-- 
2.43.0


From af9ef491f1dbcce803f40de12d52c17a181a5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 3/8] fix: learn the peer's signature key only from a CONNECT
 with a valid signature

---
 src/minimal.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index c631832..d7695c4 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -189,13 +189,11 @@ impl MinimalSecureLayer {
                 ref sig_pubkey,
                 ..
             } => {
-                // Verify (or get) peer sig pubkey
+                // Verify peer sig pubkey
                 if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {
                     if sig_pubkey != peer_sig_pubkey {
                         return Err(Error::UnexpectedRemoteSigPubKey);
                     }
-                } else {
-                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
                 }
 
                 // Verify sig
@@ -209,6 +207,11 @@ impl MinimalSecureLayer {
                 self.status
                     .apply_action(Action::Receive(MsgType::Connect))?;
 
+                // Get peer sig pubkey, now that the peer has proven to own it
+                if self.peer_sig_pubkey.is_none() {
+                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
+                }
+
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
                 self.compute_shared_secret(&peer_ephemeral_pk[..])?;
-- 
2.43.0


From 5db46ee8296fc77c614c66732c3245830dae84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 4/8] fix: fail the connection when the key agreement cannot be
 computed

---
 src/minimal.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index d7695c4..479b581 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -207,14 +207,19 @@ impl MinimalSecureLayer {
                 self.status
                     .apply_action(Action::Receive(MsgType::Connect))?;
 
+                // Compute shared secret
+                if let Err(e) = self.compute_shared_secret(&peer_ephemeral_pk[..]) {
+                    self.status = SecureLayerStatus::Fail;
+                    return Err(e);
+                }
+
+                // Get peer EPK
+                self.peer_epk = Some(peer_ephemeral_pk.to_vec());
+
                 // Get peer sig pubkey, now that the peer has proven to own it
                 if self.peer_sig_pubkey.is_none() {
                     self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
                 }
-
-                // Get peeer EPK and compute shared secret
-                self.peer_epk = Some(peer_ephemeral_pk.to_vec());
-                self.compute_shared_secret(&peer_ephemeral_pk[..])?;
             }
             MsgTypeHeaders::Ack { challenge } => {
                 // Verify challenge
-- 
2.43.0


From ce3a0ebe4c2056637e685c8e241cf3dd9d37b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:49 +0000
Subject: [PATCH 5/8] fix: hand over messages, signatures and tags completely
 or report an error

---
 src/complete/writer.rs                   | 7 +++----
 src/encryption/chacha20_poly1305_aead.rs | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/complete/writer.rs b/src/complete/writer.rs
index 8f15d72..4ab7d5b 100644
--- a/src/complete/writer.rs
+++ b/src/complete/writer.rs
@@ -42,7 +42,7 @@ where
 
         // Write connect message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -72,7 +72,7 @@ where
 
         // Write ack message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -92,8 +92,7 @@ where
     W: Write,
 {
     writer
-        .write(sig_key_pair.sign(bin_msg).as_ref())
-        .map(|_| ())
+        .write_all(sig_key_pair.sign(bin_msg).as_ref())
         .map_err(|_| Error::BufferFlushError)
 }
 
diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 6d08c80..90ec107 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -85,7 +85,7 @@ pub fn encrypt<R: Read, W: Write>(
     .map_err(Error::FailToEncryptData)?;
 
     writer
-        .write(&tag.to_vec())
+        .write_all(&tag.to_vec())
         .map_err(Error::FailToEncryptData)?;
 
     Ok(())
-- 
2.43.0


From adecfe876c45175b28f9a2dc55bf45a23a05a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 6/8] fix: report an error for the plain text format instead of
 panicking in typed mode

---
 src/complete/serde/deserializer.rs | 5 +++--
 src/complete/serde/serializer.rs   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/complete/serde/deserializer.rs b/src/complete/serde/deserializer.rs
index 2024ea0..efeeba7 100644
--- a/src/complete/serde/deserializer.rs
+++ b/src/complete/serde/deserializer.rs
@@ -89,7 +89,9 @@ where
     M: Debug + DeserializeOwned,
 {
     match message_format {
-        MessageFormat::RawBinary => Err(SerdeError::UseSuffixedBinFunctions),
+        MessageFormat::RawBinary | MessageFormat::Utf8PlainText => {
+            Err(SerdeError::UseSuffixedBinFunctions)
+        }
         #[cfg(feature = "bin")]
         MessageFormat::Bincode => Ok(bincode::deserialize::<M>(binary_message)
             .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),
@@ -101,6 +103,5 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
     }
 }
diff --git a/src/complete/serde/serializer.rs b/src/complete/serde/serializer.rs
index 478737f..57288d2 100644
--- a/src/complete/serde/serializer.rs
+++ b/src/complete/serde/serializer.rs
@@ -104,7 +104,9 @@ where
     W: Write,
 {
     match message_format {
-        MessageFormat::RawBinary => Err(SerdeError::UseSuffixedBinFunctions),
+        MessageFormat::RawBinary | MessageFormat::Utf8PlainText => {
+            Err(SerdeError::UseSuffixedBinFunctions)
+        }
         #[cfg(feature = "bin")]
         MessageFormat::Bincode => Ok(bincode::serialize_into(writer, message)
             .map_err(|e| SerdeError::BincodeError(format!("{}", e)))?),
@@ -116,6 +118,5 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::to_writer(writer, message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
     }
 }
-- 
2.43.0


From 2729e2780f41d78b697d68d708708b5eb7c273ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 7/8] fix: refuse a duplicate of an early user message on
 arrival

---
 src/minimal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/minimal.rs b/src/minimal.rs
index 479b581..1bad361 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -253,6 +253,11 @@ impl MinimalSecureLayer {
                     return Err(IncomingMsgErr::InvalidNonce.into());
                 }
 
+                // Verify that the message is not already in temporary stack
+                if self.tmp_stack_user_msgs.contains(&data) {
+                    return Err(IncomingMsgErr::InvalidNonce.into());
+                }
+
                 // Verify status
                 if let Some(ActionSideEffects::PushUserMsgIntoTmpStack) = self
                     .status
-- 
2.43.0


From 6fa7e9a639c9a8c295c4e4646f0ecf43f38affc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:02 +0000
Subject: [PATCH 8/8] fix: deliver a valid CONNECT even if the kept early ACK
 is refused

---
 src/complete.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/complete.rs b/src/complete.rs
index d7fa065..59a1854 100644
--- a/src/complete.rs
+++ b/src/complete.rs
@@ -130,8 +130,9 @@ impl SecureLayer {
                         },
                         peer_sig_public_key: sig_pubkey,
                     });
-                    if let Some(Message::Ack { custom_data }) =
-                        self.minimal_secure_layer.take_ack_msg_recv_too_early()?
+                    // An early ACK that turns out to be invalid must not discard the valid CONNECT
+                    if let Ok(Some(Message::Ack { custom_data })) =
+                        self.minimal_secure_layer.take_ack_msg_recv_too_early()
                     {
                         messages.push(IncomingBinaryMessage::Ack {
                             custom_data: if let Some(custom_data) = custom_data {
-- 
2.43.0

