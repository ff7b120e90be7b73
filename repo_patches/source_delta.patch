From 1056c9eae6c00d5874d3be113edc88a412594fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 01/17] fix: reject a user pin of nine digits

The pin may consist of at most 8 numeric characters, but the length was taken
as the floored base-10 logarithm, which is one less than the number of digits.
---
 crates/openid4vci/src/access_token/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/access_token/mod.rs b/crates/openid4vci/src/access_token/mod.rs
index 794220a..7ab2152 100644
--- a/crates/openid4vci/src/access_token/mod.rs
+++ b/crates/openid4vci/src/access_token/mod.rs
@@ -106,7 +106,8 @@ impl Validatable for GrantType {
                 if let Some(user_pin) = user_pin {
                     let max = 8;
                     let length = user_pin.checked_ilog10().unwrap_or_default();
-                    if length > max {
+                    // `ilog10` is one less than the number of digits
+                    if length >= max {
                         return Err(ValidationError::Any {
                             validation_message: format!(
                                 "user pin exeeded length. Maximum is {max}, supplied is {length}"
-- 
2.43.0


From 40204e6f7c210483762d26e905542b12ec9f4007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 02/17] fix: serialize error codes as their registered names

Error responses were serialized with the Rust variant name (`InvalidGrant`)
instead of the code of section 6.3 / 7.3.1 (`invalid_grant`).
---
 crates/openid4vci/src/access_token/error_response.rs  | 1 +
 crates/openid4vci/src/credential_issuer/error_code.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/openid4vci/src/access_token/error_response.rs b/crates/openid4vci/src/access_token/error_response.rs
index e96c3f5..9cb4a39 100644
--- a/crates/openid4vci/src/access_token/error_response.rs
+++ b/crates/openid4vci/src/access_token/error_response.rs
@@ -6,6 +6,7 @@ use crate::validate::ValidationError;
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 6.3 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-6.3).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum AccessTokenErrorCode {
     /// `invalid_request`
     ///
diff --git a/crates/openid4vci/src/credential_issuer/error_code.rs b/crates/openid4vci/src/credential_issuer/error_code.rs
index 36061ba..0f22fb4 100644
--- a/crates/openid4vci/src/credential_issuer/error_code.rs
+++ b/crates/openid4vci/src/credential_issuer/error_code.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 7.3.1 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-7.3.1).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum CredentialIssuerErrorCode {
     /// Credential Request was malformed. One or more of the parameters (i.e. format, proof) are
     /// missing or malformed.
-- 
2.43.0


From 3c1a51a00d9dd4e86f16d285e3d21017c1c8fd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 03/17] fix: serialize the issued credential without a variant
 wrapper

The `credential` member of a success response MUST be a JSON string or a JSON
object holding the credential itself, not `{"Encoded": ...}`.
---
 crates/openid4vci/src/types/credential.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index ae89654..39797e4 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -166,6 +166,7 @@ impl Validatable for CredentialFormatProfile {
 /// format as specified in Appendix E of the [openid4vci
 /// specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#name-credential-format-profiles).
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
+#[serde(untagged)]
 pub enum CredentialFormatProfileOrEncoded {
     /// [`CredentialFormatProfile`]
     CredentialFormatProfile(CredentialFormatProfile),
-- 
2.43.0


From a20f4470e6e8fe0eeb49d649517ef1968b0c492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 04/17] fix: read and write
 `cryptographic_binding_methods_supported`

A typo in the member name dropped the value from issuer metadata.
---
 crates/openid4vci/src/types/credential_issuer_metadata.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/openid4vci/src/types/credential_issuer_metadata.rs b/crates/openid4vci/src/types/credential_issuer_metadata.rs
index 1812f11..ea2b5d9 100644
--- a/crates/openid4vci/src/types/credential_issuer_metadata.rs
+++ b/crates/openid4vci/src/types/credential_issuer_metadata.rs
@@ -68,6 +68,10 @@ pub struct CredentialSupported {
     /// did:example. Support for all DID methods listed in Section 13 of
     /// [DID_Specification_Registries](https://www.w3.org/TR/did-spec-registries/) is indicated by
     /// sending a DID without any method-name.
+    #[serde(
+        rename = "cryptographic_binding_methods_supported",
+        alias = "cryptographic_binding_mehtods_supported"
+    )]
     pub cryptographic_binding_mehtods_supported: Option<Vec<String>>,
 
     /// Array of case sensitive strings that identify the cryptographic suites that are supported
-- 
2.43.0


From 8e640b3df2411f79aa883d565b2778e74bdf8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:47 +0000
Subject: [PATCH 05/17] fix: refuse a proof whose alg is none or a MAC

---
 crates/openid4vci/src/jwt/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b1fa7be..d850d0e 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -556,6 +556,20 @@ impl Validatable for ProofJwtHeader {
             });
         }
 
+        // Check whether `alg` is a digital signature algorithm
+        if matches!(
+            self.alg,
+            ProofJwtAlgorithm::None
+                | ProofJwtAlgorithm::HS256
+                | ProofJwtAlgorithm::HS384
+                | ProofJwtAlgorithm::HS512
+        ) {
+            return Err(ValidationError::Any {
+                validation_message: "jwt header `alg` MUST NOT be `none` or a symmetric algorithm"
+                    .to_owned(),
+            });
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 4343ab5388f9e5b54ee500087f59dbc1d8d24695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:47 +0000
Subject: [PATCH 06/17] fix: refuse a proof outside its nbf/exp window

---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 crates/openid4vci/src/jwt/mod.rs               | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 3ff7744..eed6d0b 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -535,6 +535,7 @@ impl CredentialIssuer {
         if let Some(CredentialRequestProof { jwt, .. }) = &credential_request.proof {
             let jwt = ProofJwt::from_str(jwt)?;
             jwt.validate()?;
+            jwt.verify()?;
 
             let expected_c_nonce = evaluate_credential_request_options
                 .clone()
diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index d850d0e..3dcc925 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -142,7 +142,7 @@ impl ProofJwt {
     /// # Errors
     ///
     /// - When the [`ProofJwtBody::not_before`] is greater than [`chrono::Utc::now`]
-    /// - When the [`ProofJwtBody::expires_at`] is smaller than [`chrono::Utc::now`]
+    /// - When the [`ProofJwtBody::expires_at`] is smaller than or equal to [`chrono::Utc::now`]
     pub fn verify(&self) -> JwtResult<()> {
         let now = Utc::now();
 
@@ -156,7 +156,7 @@ impl ProofJwt {
         }
 
         if let Some(expires_at) = self.body.expires_at {
-            if now > expires_at {
+            if now >= expires_at {
                 return Err(JwtError::NotValidAnymore {
                     valid_until: expires_at,
                     now,
-- 
2.43.0


From 082bdf2381d2adab1b2e7d37c2b5a41434696ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:47 +0000
Subject: [PATCH 07/17] fix: evaluate refuses a proof of another proof_type

---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index eed6d0b..11e0392 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -506,6 +506,7 @@ impl CredentialIssuer {
         evaluate_credential_request_options: Option<EvaluateCredentialRequestOptions>,
     ) -> CredentialIssuerResult<CredentialIssuerEvaluateRequestResponse> {
         issuer_metadata.validate()?;
+        credential_request.validate()?;
 
         let credential_offer =
             credential_offer.ok_or(CredentialIssuerError::CredentialOfferMustBeSupplied)?;
-- 
2.43.0


From 2760ba56ee0eada382ba4126df224d74b88c4ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:47 +0000
Subject: [PATCH 08/17] fix: do not cut the signature or the message at a dot
 inside the claims

---
 crates/openid4vci/src/jwt/mod.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 3dcc925..278ca68 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -227,19 +227,17 @@ impl ProofJwt {
     ///
     /// - When it could not convert the JWT to a string
     pub fn to_signable_message(&self) -> JwtResult<Vec<u8>> {
-        // Convert the JWT into a string
-        let message: String = self.try_into()?;
-
-        // Remove the signature if its defined, detected by two occurences of "."
-        let message = if message.matches('.').count() == 2 {
-            let parts: Vec<_> = message.split('.').collect();
-            format!("{}.{}", parts[0], parts[1])
-        } else {
-            message
+        // The signature, if it is defined, is not part of the message
+        let unsigned = ProofJwt {
+            signature: None,
+            ..self.clone()
         };
 
+        // Convert the JWT into a string
+        let message: String = (&unsigned).try_into()?;
+
         // Return the message as bytes
-        Ok(message.as_bytes().to_vec())
+        Ok(message.into_bytes())
     }
 
     /// Extract the signature from the `jwt`.
@@ -248,6 +246,10 @@ impl ProofJwt {
     ///
     /// - When the signature is not defined
     pub fn extract_signature(&self) -> JwtResult<Vec<u8>> {
+        if let Some(signature) = &self.signature {
+            return Ok(signature.as_bytes().to_vec());
+        }
+
         // Convert the JWT into a string
         let s_jwt: String = self.try_into()?;
 
-- 
2.43.0


From 0de5bbba5b64c804a2cc90673ea752e24b1afeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:47 +0000
Subject: [PATCH 09/17] fix: do not treat a kid that is not a did as a did

---
 crates/openid4vci/src/jwt/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 278ca68..669e092 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -186,7 +186,8 @@ impl ProofJwt {
                         }
                     })?;
 
-                    Ok(Some(did.did))
+                    // A `kid` does not have to be a did
+                    Ok(did.did.starts_with("did:").then_some(did.did))
                 }
                 ProofJwtAdditionalHeader::Jwk(jwk) => {
                     Err(JwtError::UnsupportedKeyTypeInJwtHeader {
@@ -348,8 +349,6 @@ impl ProofJwtHeader {
             Some(additional_header) => {
                 match additional_header {
                     ProofJwtAdditionalHeader::KeyId(key_id) => {
-                        // TODO: can the `key_id` also be anything other than a `did`
-
                         let did = ssi_dids::DIDURL::try_from(key_id.clone()).map_err(|e| {
                             JwtError::UnableToTransformIntoDid {
                                 kid: key_id.clone(),
@@ -357,6 +356,13 @@ impl ProofJwtHeader {
                             }
                         })?;
 
+                        if !did.did.starts_with("did:") {
+                            return Err(JwtError::UnableToTransformIntoDid {
+                                kid: key_id.clone(),
+                                message: "`kid` is not a did".to_owned(),
+                            });
+                        }
+
                         let did_document = did_document
                             .as_ref()
                             .ok_or(JwtError::NoDidDocumentProvidedForKidAsDid)?;
-- 
2.43.0


From ebd560361d5bca7fe10307a29f5f02fddbb4cb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:47 +0000
Subject: [PATCH 10/17] fix: refuse a proof of more than three segments

---
 crates/openid4vci/src/jwt/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 669e092..78251d9 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -92,6 +92,12 @@ impl FromStr for ProofJwt {
 
         let signature = res.next();
 
+        if res.next().is_some() {
+            return Err(ValidationError::Any {
+                validation_message: "More than three segments found in the `JWT`".to_owned(),
+            });
+        }
+
         let header = base64url::decode(header)?;
         let body = base64url::decode(body)?;
 
-- 
2.43.0


From 6173939d63d7b0194876d579a92b810095d8d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:48 +0000
Subject: [PATCH 11/17] fix: refuse a proof with more than one of kid, jwk and
 x5c

---
 crates/openid4vci/src/jwt/mod.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 78251d9..6483dfa 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -101,7 +101,23 @@ impl FromStr for ProofJwt {
         let header = base64url::decode(header)?;
         let body = base64url::decode(body)?;
 
-        let header: ProofJwtHeader = serde_json::from_slice(&header)?;
+        let header: serde_json::Value = serde_json::from_slice(&header)?;
+
+        // `kid`, `jwk` and `x5c` exclude each other
+        let key_references = ["kid", "jwk", "x5c"];
+        if key_references
+            .iter()
+            .filter(|k| header.get(k).is_some())
+            .count()
+            > 1
+        {
+            return Err(ValidationError::Any {
+                validation_message: "jwt header MUST have only one of `kid`, `jwk` and `x5c`"
+                    .to_owned(),
+            });
+        }
+
+        let header: ProofJwtHeader = serde_json::from_value(header)?;
         let body: ProofJwtBody = serde_json::from_slice(&body)?;
 
         Ok(ProofJwt {
-- 
2.43.0


From 79f12256f57a571753c508e1ce91425a57214a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:48 +0000
Subject: [PATCH 12/17] fix: do not panic on a nonce lifetime past the last
 timestamp

---
 crates/openid4vci/src/credential_issuer/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 11e0392..608a0bd 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -521,8 +521,10 @@ impl CredentialIssuer {
             .clone()
             .and_then(|o| o.c_nonce)
         {
-            let expiry_timestamp = c_nonce_options.c_nonce_created_at
-                + Duration::seconds(c_nonce_options.c_nonce_expires_in.into());
+            let expiry_timestamp = c_nonce_options
+                .c_nonce_created_at
+                .checked_add_signed(Duration::seconds(c_nonce_options.c_nonce_expires_in.into()))
+                .unwrap_or(DateTime::<Utc>::MAX_UTC);
             let now = Utc::now();
 
             if expiry_timestamp < now {
-- 
2.43.0


From 1a2ebbbc942e1f3adec94148e176491d76c92f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:48 +0000
Subject: [PATCH 13/17] fix: keep the query of the credential offer endpoint

---
 crates/openid4vci/src/credential_issuer/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 608a0bd..7e6c879 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -452,9 +452,13 @@ impl CredentialIssuer {
 
         // Get the url prefix
         // This is a deeplink if no `credential_offer_endpoint` is provided
-        let credential_offer_url_prefix = credential_offer_endpoint
-            .clone()
-            .map_or("openid-credential-offer://".to_owned(), |u| format!("{u}?"));
+        let credential_offer_url_prefix = credential_offer_endpoint.clone().map_or(
+            "openid-credential-offer://".to_owned(),
+            |u| {
+                let separator = if u.contains('?') { '&' } else { '?' };
+                format!("{u}{separator}")
+            },
+        );
 
         let credential_offer_url =
             format!("{credential_offer_url_prefix}credential_offer={credential_offer_url_encoded}");
-- 
2.43.0


From 889b705fe0e1cffae196f6cb2e80edfecee019ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:52 +0000
Subject: [PATCH 14/17] fix: read and write the claim parameter `value_type`

---
 crates/openid4vci/src/types/credential.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index 39797e4..a04f83c 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -133,7 +133,11 @@ pub struct CredentialSubject {
     /// defined by this specification are string, number, and image media types such as image/jpeg
     /// as defined in [IANA media type registry for
     /// images](https://www.iana.org/assignments/media-types/media-types.xhtml#image).
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "value_type",
+        alias = "valueType",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub value_type: Option<String>,
 
     /// An array of objects, where each object contains display properties of a certain claim in
-- 
2.43.0


From f2cad8731a2a67e8de5f05ebdca90e002654ad25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:37 +0000
Subject: [PATCH 15/17] fix: read a credential offer without grants

---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 7e6c879..0194090 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -190,6 +190,7 @@ pub struct CredentialOffer {
     /// the respective request(s). If grants is not present or empty, the Wallet MUST determine the
     /// Grant Types the Credential Issuer's AS supports using the respective metadata. When multiple
     /// grants are present, it's at the Wallet's discretion which one to use.
+    #[serde(default)]
     pub grants: CredentialOfferGrants,
 }
 
-- 
2.43.0


From e944818f4d23824e1a383b2112f7e37ae1a5fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:56 +0000
Subject: [PATCH 16/17] fix: read the token type without regard to case

---
 crates/openid4vci/src/types/token_type.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/types/token_type.rs b/crates/openid4vci/src/types/token_type.rs
index 550573b..5dad287 100644
--- a/crates/openid4vci/src/types/token_type.rs
+++ b/crates/openid4vci/src/types/token_type.rs
@@ -4,6 +4,7 @@ use crate::validate::ValidationError;
 
 /// Enum containing token types for an access token response.
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(try_from = "String")]
 pub enum AccessTokenType {
     /// `Bearer` token type, as defined in Section 6.1.1 of [OAuth 2.0 Bearer Token Usage](https://www.rfc-editor.org/rfc/rfc6750#section-6.1.1).
     Bearer,
@@ -21,8 +22,9 @@ impl TryFrom<String> for AccessTokenType {
     type Error = ValidationError;
 
     fn try_from(value: String) -> core::result::Result<Self, Self::Error> {
-        match value.as_str() {
-            "Bearer" => Ok(AccessTokenType::Bearer),
+        // The value is case insensitive
+        match value.to_ascii_lowercase().as_str() {
+            "bearer" => Ok(AccessTokenType::Bearer),
             _ => Err(ValidationError::Any {
                 validation_message: "Invalid access token type".to_string(),
             }),
-- 
2.43.0


From 52f018d0c70fcb35fa70895400374efbcceff446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:59 +0000
Subject: [PATCH 17/17] fix: refuse proof claims that are not encoded as UTF-8

---
 crates/openid4vci/src/jwt/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 6483dfa..db32698 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -118,7 +118,12 @@ impl FromStr for ProofJwt {
         }
 
         let header: ProofJwtHeader = serde_json::from_value(header)?;
-        let body: ProofJwtBody = serde_json::from_slice(&body)?;
+
+        // a member without a definition is skipped without its encoding being checked
+        let body = std::str::from_utf8(&body).map_err(|e| ValidationError::Any {
+            validation_message: format!("jwt claims are not encoded as UTF-8: {e}"),
+        })?;
+        let body: ProofJwtBody = serde_json::from_str(body)?;
 
         Ok(ProofJwt {
             header,
-- 
2.43.0

