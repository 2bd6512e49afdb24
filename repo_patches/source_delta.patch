From 33ed1d908aa70ceeddd7359fa714f7462479efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 1/9] fix: report JSON input that ends early as Malformed, not
 InvalidState

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 27d5f02..b2294de 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -168,7 +168,7 @@ impl<T> ToResult<T> for bs58::encode::Result<T> {
 impl From<serde_json::Error> for Error {
     fn from(err: serde_json::Error) -> Self {
         match err.classify() {
-            Category::Io | Category::Eof => Error::msg(ErrorKind::InvalidState, err.to_string()),
+            Category::Io => Error::msg(ErrorKind::InvalidState, err.to_string()),
             _ => Error::msg(ErrorKind::Malformed, err.to_string()),
         }
     }
-- 
2.43.0


From 4bd6eb61d4edf5c87c2196de1e425365432ce87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 2/9] fix: reject from_prior whose signing key is not the
 issuer's

---
 src/message/from_prior/unpack.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/message/from_prior/unpack.rs b/src/message/from_prior/unpack.rs
index 8d80fdc..9da279a 100644
--- a/src/message/from_prior/unpack.rs
+++ b/src/message/from_prior/unpack.rs
@@ -135,6 +135,13 @@ impl FromPrior {
         let from_prior: FromPrior = serde_json::from_str(&payload)
             .kind(ErrorKind::Malformed, "Unable to parse from_prior")?;
 
+        if from_prior.iss != did {
+            Err(err_msg(
+                ErrorKind::Malformed,
+                "from_prior is malformed: signed by a key of other DID than `iss`",
+            ))?
+        }
+
         Ok((from_prior, kid.into()))
     }
 }
-- 
2.43.0


From e8d9f2245d57c55379a24b4041be545de7902e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 3/9] fix: wrap_in_forward panicked on an empty list of routing
 keys

---
 src/protocols/routing/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocols/routing/mod.rs b/src/protocols/routing/mod.rs
index 7137c6b..ae722ed 100644
--- a/src/protocols/routing/mod.rs
+++ b/src/protocols/routing/mod.rs
@@ -247,8 +247,8 @@ pub async fn wrap_in_forward<'dr>(
 ) -> Result<String> {
     let mut tos = routing_keys.clone();
 
-    let mut nexts = tos.clone();
-    nexts.remove(0);
+    // `to` follows the last routing key (there may be no routing keys at all)
+    let mut nexts: Vec<String> = tos.iter().skip(1).cloned().collect();
     nexts.push(to.to_owned());
 
     tos.reverse();
-- 
2.43.0


From aa7e5bf6965aa451078aee6cab204f3ba2d1ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 4/9] fix: keep the resolver's error kind when the sender of an
 authcrypt message cannot be resolved

---
 src/message/unpack/authcrypt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message/unpack/authcrypt.rs b/src/message/unpack/authcrypt.rs
index 9d6bd1b..4074e6e 100644
--- a/src/message/unpack/authcrypt.rs
+++ b/src/message/unpack/authcrypt.rs
@@ -11,7 +11,7 @@ use crate::jwe::envelope::JWE;
 use crate::{
     algorithms::AuthCryptAlg,
     did::DIDResolver,
-    error::{err_msg, ErrorKind, Result, ResultExt},
+    error::{err_msg, ErrorKind, Result, ResultContext, ResultExt},
     jwe,
     secrets::SecretsResolver,
     utils::{
@@ -63,7 +63,7 @@ pub(crate) async fn _try_unpack_authcrypt<'dr, 'sr>(
     let from_ddoc = did_resolver
         .resolve(from_did)
         .await
-        .kind(ErrorKind::InvalidState, "Unable resolve sender did")?
+        .context("Unable resolve sender did")?
         .ok_or_else(|| err_msg(ErrorKind::DIDNotResolved, "Sender did not found"))?;
 
     let from_kid = from_ddoc
-- 
2.43.0


From 77ca31637adca8cb59a86808fee088a771963b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 5/9] fix: ed25519 secrets with too short material panicked
 instead of being an error

---
 src/utils/did.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index 72045b1..fe15202 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -366,6 +366,12 @@ impl AsKnownKeyPair for Secret {
                     .to_didcomm("Wrong base58 value in secret material")?;
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Too short ed25519 secret material",
+                    ))?
+                }
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
@@ -456,6 +462,12 @@ impl AsKnownKeyPair for Secret {
                 }
 
                 let curve25519_point_size = 32;
+                if decoded_value.len() < curve25519_point_size {
+                    Err(err_msg(
+                        ErrorKind::Malformed,
+                        "Too short ed25519 secret material",
+                    ))?
+                }
                 let (d_value, x_value) = decoded_value.split_at(curve25519_point_size);
                 let base64_url_d_value = base64::encode_config(&d_value, base64::URL_SAFE_NO_PAD);
                 let base64_url_x_value = base64::encode_config(&x_value, base64::URL_SAFE_NO_PAD);
-- 
2.43.0


From 05e552f4583af8ef33b537a9c1e3a8041b5d7305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 6/9] fix: overlong multicodec prefixes overflowed while
 reading key material

---
 src/utils/did.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/did.rs b/src/utils/did.rs
index fe15202..47ea761 100644
--- a/src/utils/did.rs
+++ b/src/utils/did.rs
@@ -516,6 +516,11 @@ impl Codec {
 }
 
 fn _from_multicodec(value: &Vec<u8>) -> Result<(Codec, &[u8])> {
+    // varint crate does not limit the length, its shift overflows on longer prefixes than u32 takes
+    if value.iter().take_while(|&b| b & 0x80 != 0).count() >= 5 {
+        Err(err_msg(ErrorKind::Malformed, "Too long varint"))?
+    }
+
     let mut val: Cursor<Vec<u8>> = Cursor::new(value.clone());
     let prefix_int = val
         .read_unsigned_varint_32()
-- 
2.43.0


From 336b6c2d5ea38f23de46455c2764c364e80523b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 7/9] fix: keep the error kind a foreign resolver reports

---
 uniffi/src/did/did_resolver_adapter.rs         | 4 ++--
 uniffi/src/secrets/secrets_resolver_adapter.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/uniffi/src/did/did_resolver_adapter.rs b/uniffi/src/did/did_resolver_adapter.rs
index ae23846..2ac6667 100644
--- a/uniffi/src/did/did_resolver_adapter.rs
+++ b/uniffi/src/did/did_resolver_adapter.rs
@@ -2,7 +2,7 @@ use std::sync::Arc;
 
 use didcomm_core::{
     did::{DIDDoc, DIDResolver as _DIDResolver},
-    error::{ErrorKind, Result, ResultExt},
+    error::{Result, ResultContext},
 };
 
 use async_trait::async_trait;
@@ -29,7 +29,7 @@ impl _DIDResolver for DIDResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not resolve DID Doc")?;
+            .context("can not resolve DID Doc")?;
         Ok(res)
     }
 }
diff --git a/uniffi/src/secrets/secrets_resolver_adapter.rs b/uniffi/src/secrets/secrets_resolver_adapter.rs
index 03a38c5..05b4fe8 100644
--- a/uniffi/src/secrets/secrets_resolver_adapter.rs
+++ b/uniffi/src/secrets/secrets_resolver_adapter.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use async_trait::async_trait;
-use didcomm_core::error::{ErrorKind, Result, ResultExt};
+use didcomm_core::error::{Result, ResultContext};
 use didcomm_core::secrets::{Secret, SecretsResolver as _SecretsResolver};
 
 use crate::secrets_resolver::{OnFindSecretsResult, OnGetSecretResult};
@@ -29,7 +29,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+            .context("can not get secret")?;
         Ok(res)
     }
 
@@ -42,7 +42,7 @@ impl _SecretsResolver for SecretsResolverAdapter {
         let res = receiver
             .get()
             .await
-            .kind(ErrorKind::InvalidState, "can not get secret")?;
+            .context("can not get secret")?;
 
         Ok(secret_ids
             .iter()
-- 
2.43.0


From c02ff09964d4c4f72400389bae64042f91adc2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 8/9] fix: keep DIDCommSecretNotFound when a JavaScript
 resolver throws it

---
 wasm/src/error.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wasm/src/error.rs b/wasm/src/error.rs
index 6453dcf..5e963f6 100644
--- a/wasm/src/error.rs
+++ b/wasm/src/error.rs
@@ -56,6 +56,7 @@ impl<T> FromJsResult<T> for Result<T, JsValue> {
                     Some("DIDCommNoCompatibleCrypto") => _ErrorKind::NoCompatibleCrypto,
                     Some("DIDCommUnsupported") => _ErrorKind::Unsupported,
                     Some("DIDCommIllegalArgument") => _ErrorKind::IllegalArgument,
+                    Some("DIDCommSecretNotFound") => _ErrorKind::SecretNotFound,
                     _ => _ErrorKind::InvalidState,
                 };
 
-- 
2.43.0


From d746cf0bd1dd4fabb1d1b9ceb0fd4e2077d0a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 9/9] fix: refuse a message whose from_prior names another
 subject than its author

---
 src/message/unpack/plaintext.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/message/unpack/plaintext.rs b/src/message/unpack/plaintext.rs
index dc5a5de..607bbba 100644
--- a/src/message/unpack/plaintext.rs
+++ b/src/message/unpack/plaintext.rs
@@ -1,5 +1,5 @@
 use crate::did::DIDResolver;
-use crate::error::{ErrorKind, Result};
+use crate::error::{err_msg, ErrorKind, Result};
 use crate::{FromPrior, Message, UnpackMetadata};
 
 pub(crate) async fn _try_unpack_plaintext<'dr, 'sr>(
@@ -18,6 +18,14 @@ pub(crate) async fn _try_unpack_plaintext<'dr, 'sr>(
         let (unpacked_from_prior, from_prior_issuer_kid) =
             FromPrior::unpack(from_prior, did_resolver).await?;
 
+        match &msg.from {
+            Some(from) if from != &unpacked_from_prior.sub => Err(err_msg(
+                ErrorKind::Malformed,
+                "from_prior `sub` value is not equal to message `from` value",
+            ))?,
+            _ => {}
+        }
+
         metadata.from_prior = Some(unpacked_from_prior);
         metadata.from_prior_issuer_kid = Some(from_prior_issuer_kid);
     };
-- 
2.43.0

