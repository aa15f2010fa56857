From 234bd21836f6dca458c519d20903a53ade8aeedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:22 +0000
Subject: [PATCH 01/40] fix: access token state lives for the lifetime
 advertised in the token response

---
 vercre-issuer/src/token.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 909e2a8..c6eb15b 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -219,6 +219,7 @@ impl Context {
             c_nonce: c_nonce.clone(),
             c_nonce_expires_at: Utc::now() + Expire::Nonce.duration(),
         });
+        state.expires_at = Utc::now() + Expire::Access.duration();
         StateStore::put(provider, &access_token, &state, state.expires_at)
             .await
             .map_err(|e| Error::ServerError(format!("issue saving state: {e}")))?;
-- 
2.43.0


From 73efe7d0dfe8bc251d4bec16a1071f55aef343f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:22 +0000
Subject: [PATCH 02/40] fix: honour
 pre_authorized_grant_anonymous_access_supported when client_id is absent

---
 vercre-issuer/src/token.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index c6eb15b..bbb31c4 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -94,9 +94,9 @@ impl Context {
                 }
 
                 // anonymous access allowed?
-                if request.client_id.as_ref().is_none()
-                    || request.client_id.as_ref().is_some_and(String::is_empty)
-                        && !server.pre_authorized_grant_anonymous_access_supported
+                if (request.client_id.as_ref().is_none()
+                    || request.client_id.as_ref().is_some_and(String::is_empty))
+                    && !server.pre_authorized_grant_anonymous_access_supported
                 {
                     return Err(Error::InvalidClient("anonymous access is not supported".into()));
                 }
-- 
2.43.0


From cf41c95546eddf48bb7cc0cb44e2e3e4965bf76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:22 +0000
Subject: [PATCH 03/40] fix: accept pushed authorization requests when the
 server requires them

---
 vercre-issuer/src/par.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vercre-issuer/src/par.rs b/vercre-issuer/src/par.rs
index 443699f..e65c0cf 100644
--- a/vercre-issuer/src/par.rs
+++ b/vercre-issuer/src/par.rs
@@ -48,6 +48,7 @@ async fn verify(provider: &impl Provider, request: &PushedAuthorizationRequest)
     };
     let mut ctx = authorize::Context {
         issuer,
+        is_par: true,
         ..authorize::Context::default()
     };
     ctx.verify(provider, &request.request).await?;
-- 
2.43.0


From cded7de1c92a305451ac73d480695e4ee2dc3556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:22 +0000
Subject: [PATCH 04/40] fix: a pushed authorization request_uri can be used
 once only

---
 vercre-issuer/src/authorize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index fc19b45..51a9cfe 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -103,6 +103,11 @@ pub async fn authorize(
                 return Err(Error::InvalidRequest("invalid state".into()));
             };
 
+            // `request_uri` can be used once only
+            StateStore::purge(&provider, &uri.request_uri)
+                .await
+                .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
+
             if par.expires_at < Utc::now() {
                 return Err(Error::InvalidRequest("`request_uri` has expired".into()));
             }
-- 
2.43.0


From ebe9e5b57dd2d1c23d4173d830daff70ec81a969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:44 +0000
Subject: [PATCH 05/40] fix: refuse requests for claims the credential
 configuration does not support

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 61baef1..47ff32e 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -1707,7 +1707,7 @@ impl CredentialConfiguration {
         // ensure `claimset` claims exist in the supported claims
         if !claimset.is_empty() {
             if let Some(claims) = &self.format.claims() {
-                let _ = Self::claims_supported(claimset, claims);
+                Self::claims_supported(claimset, claims)?;
             }
         }
 
-- 
2.43.0


From 5842c3d3a5a4305bbf49f67ccb7acbd7b774a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:44 +0000
Subject: [PATCH 06/40] fix: refuse presentations and request object retrieval
 once the request has expired

---
 vercre-verifier/src/request_object.rs |  3 +++
 vercre-verifier/src/response.rs       |  3 +++
 vercre-verifier/src/state.rs          | 12 ++++++------
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/vercre-verifier/src/request_object.rs b/vercre-verifier/src/request_object.rs
index 38033ed..ac0df34 100644
--- a/vercre-verifier/src/request_object.rs
+++ b/vercre-verifier/src/request_object.rs
@@ -46,6 +46,9 @@ async fn process(
     let state = StateStore::get::<State>(&provider, &request.id)
         .await
         .map_err(|e| Error::ServerError(format!("issue fetching state: {e}")))?;
+    if state.is_expired() {
+        return Err(Error::InvalidRequest("state expired".into()));
+    }
     let req_obj = state.request_object;
 
     // verify client_id (perhaps should use 'verify' method?)
diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index d3e08a1..55a9995 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -63,6 +63,9 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
     let Ok(state) = StateStore::get::<State>(&provider, state_key).await else {
         return Err(Error::InvalidRequest("state not found".into()));
     };
+    if state.is_expired() {
+        return Err(Error::InvalidRequest("state expired".into()));
+    }
     let saved_req = &state.request_object;
 
     let Some(vp_token) = request.vp_token.clone() else {
diff --git a/vercre-verifier/src/state.rs b/vercre-verifier/src/state.rs
index 701c59d..9818d03 100644
--- a/vercre-verifier/src/state.rs
+++ b/vercre-verifier/src/state.rs
@@ -30,9 +30,9 @@ pub struct State {
     pub request_object: RequestObject,
 }
 
-// impl State {
-//     /// Determines whether state has expired or not.
-//     pub fn expired(&self) -> bool {
-//         self.expires_at.signed_duration_since(Utc::now()).num_seconds() < 0
-//     }
-// }
+impl State {
+    /// Determines whether state has expired or not.
+    pub fn is_expired(&self) -> bool {
+        self.expires_at.signed_duration_since(Utc::now()).num_seconds() < 0
+    }
+}
-- 
2.43.0


From 4790537e98162ec868616f441455942a17821f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:44 +0000
Subject: [PATCH 07/40] fix: look up credential status by the identifier of the
 credential being issued

---
 vercre-issuer/src/credential.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 7d424f0..f5f9d64 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -260,7 +260,7 @@ impl Context {
         let Some(subject_id) = &self.state.subject_id else {
             return Err(Error::AccessDenied("invalid subject id".into()));
         };
-        let status = Status::status(provider, subject_id, "credential_identifier")
+        let status = Status::status(provider, subject_id, &self.authorized.credential_identifier)
             .await
             .map_err(|e| Error::ServerError(format!("issue populating credential status: {e}")))?;
 
-- 
2.43.0


From bdd9c81912f90f87875e10d7df79b05e4e6ae49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:44 +0000
Subject: [PATCH 08/40] fix: report unsupported credential formats instead of
 panicking

---
 vercre-issuer/src/credential.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index f5f9d64..bc4b11b 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -202,9 +202,9 @@ impl Context {
             Format::IsoMdl(_) => self.mso_mdoc(dataset, signer).await?,
 
             // TODO: remaining credential formats
-            Format::JwtVcJsonLd(_) => todo!(),
-            Format::LdpVc(_) => todo!(),
-            Format::VcSdJwt(_) => todo!(),
+            Format::JwtVcJsonLd(_) | Format::LdpVc(_) | Format::VcSdJwt(_) => {
+                return Err(Error::UnsupportedFormat("credential format not supported".into()));
+            }
         };
 
         // update token state with new `c_nonce`
-- 
2.43.0


From dbb52cb1249a614406d055e4dfc83b9039213f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:44 +0000
Subject: [PATCH 09/40] fix: do not panic creating an offer when
 authorization_servers is empty

---
 vercre-issuer/src/create_offer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/create_offer.rs b/vercre-issuer/src/create_offer.rs
index 0228e40..066bb59 100644
--- a/vercre-issuer/src/create_offer.rs
+++ b/vercre-issuer/src/create_offer.rs
@@ -233,7 +233,7 @@ impl Context {
         // TODO: determine how to select correct server?
         // select `authorization_server`, if specified
         let authorization_server =
-            self.issuer.authorization_servers.as_ref().map(|servers| servers[0].clone());
+            self.issuer.authorization_servers.as_ref().and_then(|servers| servers.first().cloned());
 
         let mut grants = Grants {
             authorization_code: None,
-- 
2.43.0


From 53d4195a77f9e1f2b0aa937e4c21edbeb7a48ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:44 +0000
Subject: [PATCH 10/40] fix: authorize every item of a requested scope, not
 only the first

---
 vercre-issuer/src/authorize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vercre-issuer/src/authorize.rs b/vercre-issuer/src/authorize.rs
index 51a9cfe..12436b2 100644
--- a/vercre-issuer/src/authorize.rs
+++ b/vercre-issuer/src/authorize.rs
@@ -328,7 +328,7 @@ impl Context {
     // Verify Credentials requested in `scope` are supported.
     // N.B. has side effect of saving valid scope items into context for later use.
     fn verify_scope(&mut self, scope: &str) -> Result<()> {
-        if let Some(item) = scope.split_whitespace().next() {
+        for item in scope.split_whitespace() {
             let mut scope_map = HashMap::new();
 
             // find supported configurations that has the requested scope
-- 
2.43.0


From 56d8db797ff1cea46f54f1e66593310622ed4f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:06 +0000
Subject: [PATCH 11/40] fix: registration needs an unexpired access token

---
 vercre-issuer/src/register.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vercre-issuer/src/register.rs b/vercre-issuer/src/register.rs
index 8aa7875..00d5f28 100644
--- a/vercre-issuer/src/register.rs
+++ b/vercre-issuer/src/register.rs
@@ -5,7 +5,7 @@ use vercre_openid::issuer::{Provider, RegistrationRequest, RegistrationResponse,
 use vercre_openid::{Error, Result};
 
 // use crate::shell;
-use crate::state::State;
+use crate::state::{Stage, State};
 
 /// Registration request handler.
 ///
@@ -26,7 +26,12 @@ async fn verify(provider: &impl Provider, request: &RegistrationRequest) -> Resu
 
     // verify state is still accessible (has not expired)
     match StateStore::get::<State>(provider, &request.access_token).await {
-        Ok(_) => Ok(()),
+        Ok(state) if state.is_expired() => Err(Error::AccessDenied("state expired".into())),
+        Ok(State {
+            stage: Stage::Validated(_),
+            ..
+        }) => Ok(()),
+        Ok(_) => Err(Error::AccessDenied("invalid access token state".into())),
         Err(e) => Err(Error::ServerError(format!("State not found: {e}"))),
     }
 }
-- 
2.43.0


From 5b459caeae7808d99bdfb240861afc93d95d55b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:06 +0000
Subject: [PATCH 12/40] fix: notification_id refers to the issued credential,
 not a copy of the access token

---
 vercre-issuer/src/credential.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index bc4b11b..0dd028e 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -27,7 +27,7 @@ use vercre_w3c_vc::model::{CredentialSubject, VerifiableCredential};
 use vercre_w3c_vc::proof::{self, Payload, W3cFormat};
 use vercre_w3c_vc::verify_key;
 
-use crate::state::{Authorized, Deferrance, Expire, Stage, State};
+use crate::state::{Authorized, Credential, Deferrance, Expire, Stage, State};
 
 /// Credential request handler.
 ///
@@ -194,12 +194,15 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue  resolving signer: {e}")))?;
 
         // determine credential format
-        let response = match &self.configuration.format {
+        let (response, issued) = match &self.configuration.format {
             Format::JwtVcJson(w3c) => {
                 let vc = self.w3c_vc(provider, &w3c.credential_definition, dataset).await?;
-                self.jwt_vc_json(vc, signer, issuance_date).await?
+                (self.jwt_vc_json(vc.clone(), signer, issuance_date).await?, vc)
+            }
+            // N.B. mdoc credentials have no W3C representation
+            Format::IsoMdl(_) => {
+                (self.mso_mdoc(dataset, signer).await?, VerifiableCredential::default())
             }
-            Format::IsoMdl(_) => self.mso_mdoc(dataset, signer).await?,
 
             // TODO: remaining credential formats
             Format::JwtVcJsonLd(_) | Format::LdpVc(_) | Format::VcSdJwt(_) => {
@@ -223,9 +226,7 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue saving state: {e}")))?;
 
         // create issuance state for notification endpoint
-        // TODO: save credential in state !!
-        // state.stage = Stage::Issued(Credential { credential: vc, issuance:
-        // issuance_dt });
+        state.stage = Stage::Issued(Credential { credential: issued });
         let notification_id = gen::notification_id();
 
         StateStore::put(provider, &notification_id, &state, state.expires_at)
-- 
2.43.0


From bb13fc5643ff6203dc9dc90f06b07f31ed63b8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:21 +0000
Subject: [PATCH 13/40] fix: a deferred transaction stays redeemable until its
 credential has been issued

---
 vercre-issuer/src/credential.rs | 19 +++++++++++++++++--
 vercre-issuer/src/deferred.rs   | 21 +++++++--------------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 0dd028e..44859b4 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -38,6 +38,15 @@ use crate::state::{Authorized, Credential, Deferrance, Expire, Stage, State};
 #[instrument(level = "debug", skip(provider))]
 pub async fn credential(
     provider: impl Provider, request: CredentialRequest,
+) -> Result<CredentialResponse> {
+    issue(provider, request, false).await
+}
+
+/// Issue the credential, or defer issuance when its dataset is not yet
+/// available. For requests that have already been deferred, the key proof was
+/// verified against the `c_nonce` current at the time of the original request.
+pub(crate) async fn issue(
+    provider: impl Provider, request: CredentialRequest, is_deferred: bool,
 ) -> Result<CredentialResponse> {
     let Ok(state) = StateStore::get::<State>(&provider, &request.access_token).await else {
         return Err(Error::AccessDenied("invalid access token".into()));
@@ -50,6 +59,7 @@ pub async fn credential(
     let mut ctx = Context {
         state,
         issuer,
+        is_deferred,
         ..Context::default()
     };
 
@@ -74,6 +84,7 @@ struct Context {
     authorized: Authorized,
     configuration: CredentialConfiguration,
     holder_did: String,
+    is_deferred: bool,
 }
 
 impl Context {
@@ -97,7 +108,7 @@ impl Context {
             return Err(Error::AccessDenied("invalid access token state".into()));
         };
 
-        if token_state.c_nonce_expired() {
+        if !self.is_deferred && token_state.c_nonce_expired() {
             return Err(Error::AccessDenied("c_nonce has expired".into()));
         }
 
@@ -142,7 +153,7 @@ impl Context {
                 }
 
                 // previously issued c_nonce
-                if jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
+                if !self.is_deferred && jwt.claims.nonce.as_ref() != Some(&token_state.c_nonce) {
                     return Err(self
                         .invalid_proof(provider, "Proof JWT nonce claim is invalid")
                         .await?);
@@ -176,6 +187,10 @@ impl Context {
 
         // defer issuance as claims are pending (approval)
         if dataset.pending {
+            if self.is_deferred {
+                // TODO: make retry interval configurable
+                return Err(Error::IssuancePending(5));
+            }
             return self.defer_response(provider, request).await;
         }
 
diff --git a/vercre-issuer/src/deferred.rs b/vercre-issuer/src/deferred.rs
index 901bac6..379d262 100644
--- a/vercre-issuer/src/deferred.rs
+++ b/vercre-issuer/src/deferred.rs
@@ -10,12 +10,11 @@
 
 use tracing::instrument;
 use vercre_openid::issuer::{
-    CredentialResponseType, DeferredCredentialRequest, DeferredCredentialResponse, Provider,
-    StateStore,
+    DeferredCredentialRequest, DeferredCredentialResponse, Provider, StateStore,
 };
 use vercre_openid::{Error, Result};
 
-use crate::credential::credential;
+use crate::credential::issue;
 use crate::state::{Stage, State};
 
 /// Deferred credential request handler.
@@ -48,23 +47,17 @@ async fn process(
         return Err(Error::ServerError("Deferred state not found.".into()));
     };
 
-    // remove deferred state item
-    StateStore::purge(provider, &request.transaction_id)
-        .await
-        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
-
     // make credential request
     let mut cred_req = deferred_state.credential_request;
     cred_req.credential_issuer.clone_from(&request.credential_issuer);
     cred_req.access_token.clone_from(&request.access_token);
 
-    let response = credential(provider.clone(), cred_req).await?;
+    let response = issue(provider.clone(), cred_req, true).await?;
 
-    // is issuance still pending?
-    if let CredentialResponseType::TransactionId(_) = response.response {
-        // TODO: make retry interval configurable
-        return Err(Error::IssuancePending(5));
-    };
+    // the transaction is complete once the credential has been issued
+    StateStore::purge(provider, &request.transaction_id)
+        .await
+        .map_err(|e| Error::ServerError(format!("issue purging state: {e}")))?;
 
     Ok(DeferredCredentialResponse {
         credential_response: response,
-- 
2.43.0


From 14facc5ab929635dd65c45dc89eb7c7a14143658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:48 +0000
Subject: [PATCH 14/40] fix: error responses are valid JSON for any
 description, and issuance_pending can be serialized

---
 crates/openid/src/error.rs | 54 +++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/crates/openid/src/error.rs b/crates/openid/src/error.rs
index 8acb9ce..c744001 100644
--- a/crates/openid/src/error.rs
+++ b/crates/openid/src/error.rs
@@ -21,7 +21,7 @@ pub enum Error {
     /// parameter value, repeats a parameter, includes multiple credentials,
     /// utilizes more than one mechanism for authenticating the client, or is
     /// otherwise malformed.
-    #[error(r#"{{"error": "invalid_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_request", "error_description": {}}}"#, quote(.0))]
     InvalidRequest(String),
 
     /// Client authentication failed (e.g., unknown client, no client
@@ -39,7 +39,7 @@ pub enum Error {
     ///
     /// Verifier's pre-registered metadata has been found based on the Client
     /// Identifier, but `client_metadata` parameter is also set.
-    #[error(r#"{{"error": "invalid_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_client", "error_description": {}}}"#, quote(.0))]
     InvalidClient(String),
 
     /// The provided authorization grant (e.g., authorization code,
@@ -49,60 +49,60 @@ pub enum Error {
     ///
     /// The Authorization Server expects a PIN in the pre-authorized flow but
     /// the client provides the wrong PIN.
-    #[error(r#"{{"error": "invalid_grant", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_grant", "error_description": {}}}"#, quote(.0))]
     InvalidGrant(String),
 
     /// The client is not authorized to request an authorization code using this
     /// method.
-    #[error(r#"{{"error": "unauthorized_client", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unauthorized_client", "error_description": {}}}"#, quote(.0))]
     UnauthorizedClient(String),
 
     /// The authorization grant type is not supported by the authorization
     /// server.
-    #[error(r#"{{"error": "unsupported_grant_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_grant_type", "error_description": {}}}"#, quote(.0))]
     UnsupportedGrantType(String),
 
     /// The requested scope is invalid, unknown, malformed, or exceeds the scope
     /// granted.
-    #[error(r#"{{"error": "invalid_scope", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_scope", "error_description": {}}}"#, quote(.0))]
     InvalidScope(String),
 
     /// Unknown authorization details type or authorization details not
     /// conforming to the respective type definition
-    #[error(r#"{{"error": "invalid_authorization_details", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_authorization_details", "error_description": {}}}"#, quote(.0))]
     InvalidAuthorizationDetails(String),
 
     /// The resource owner or authorization server denied the request.
-    #[error(r#"{{"error": "access_denied", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "access_denied", "error_description": {}}}"#, quote(.0))]
     AccessDenied(String),
 
     /// The authorization server does not support obtaining an authorization
     /// code using this method.
-    #[error(r#"{{"error": "unsupported_response_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_response_type", "error_description": {}}}"#, quote(.0))]
     UnsupportedResponseType(String),
 
     /// The authorization server encountered an unexpected condition that
     /// prevented it from fulfilling the request.
-    #[error(r#"{{"error": "server_error", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "server_error", "error_description": {}}}"#, quote(.0))]
     ServerError(String),
 
     /// The authorization server is unable to handle the request due to
     /// temporary overloading or maintenance.
-    #[error(r#"{{"error": "temporarily_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "temporarily_unavailable", "error_description": {}}}"#, quote(.0))]
     TemporarilyUnavailable(String),
 
     /// The Credential Request is missing a required parameter, includes an
     /// unsupported parameter or parameter value, repeats the same
     /// parameter, or is otherwise malformed.
-    #[error(r#"{{"error": "invalid_credential_request", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_credential_request", "error_description": {}}}"#, quote(.0))]
     InvalidCredentialRequest(String),
 
     /// Requested credential type is not supported.
-    #[error(r#"{{"error": "unsupported_credential_type", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_type", "error_description": {}}}"#, quote(.0))]
     UnsupportedCredentialType(String),
 
     /// Requested credential format is not supported.
-    #[error(r#"{{"error": "unsupported_credential_format", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "unsupported_credential_format", "error_description": {}}}"#, quote(.0))]
     UnsupportedFormat(String),
 
     /// Credential Request did not contain a proof, or proof was invalid, i.e.
@@ -111,7 +111,7 @@ pub enum Error {
     /// `c_nonce_expires_in` values to be used by the Wallet when creating
     /// another proof of possession of key material.
     #[allow(missing_docs)]
-    #[error(r#"{{"error": "invalid_proof", "error_description": "{hint}", "c_nonce": "{c_nonce}", "c_nonce_expires_in": {c_nonce_expires_in}}}"#)]
+    #[error(r#"{{"error": "invalid_proof", "error_description": {}, "c_nonce": {}, "c_nonce_expires_in": {c_nonce_expires_in}}}"#, quote(.hint), quote(.c_nonce))]
     InvalidProof { hint: String, c_nonce: String, c_nonce_expires_in: i64 },
 
     /// This error occurs when the encryption parameters in the Credential
@@ -119,7 +119,7 @@ pub enum Error {
     /// indicates that the Credential Issuer requires the Credential
     /// Response to be sent encrypted, but the Credential Request does not
     /// contain the necessary encryption parameters.
-    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_encryption_parameters", "error_description": {}}}"#, quote(.0))]
     InvalidEncryptionParameters(String),
 
     /// The Credential issuance is still pending. The error response SHOULD also
@@ -135,23 +135,24 @@ pub enum Error {
     /// This error occurs when the `transaction_id` was not issued by the
     /// respective Credential Issuer or it was already used to obtain the
     /// Credential.
-    #[error(r#"{{"error": "invalid_transaction_id", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_transaction_id", "error_description": {}}}"#, quote(.0))]
     InvalidTransactionId(String),
 
     /// The Wallet does not support any of the formats requested by the
     /// Verifier, such as those included in the `vp_formats` registration
     /// parameter.
-    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "vp_formats_not_supported", "error_description": {}}}"#, quote(.0))]
     VpFormatsNotSupported(String),
 
     /// The Presentation Definition URL cannot be reached.
-    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "invalid_presentation_definition_uri", "error_description": {}}}"#, quote(.0))]
     InvalidPresentationDefinitionUri(String),
 
     /// The Presentation Definition URL can be reached, but the specified
     /// `presentation_definition` cannot be found at the URL.
     #[error(
-        r#"{{"error": "invalid_presentation_definition_reference", "error_description": "{0}"}}"#
+        r#"{{"error": "invalid_presentation_definition_reference", "error_description": {}}}"#,
+        quote(.0)
     )]
     InvalidPresentationDefinitionReference(String),
 
@@ -160,7 +161,7 @@ pub enum Error {
     /// Use when the User Agent cannot invoke the Wallet and another component
     /// receives the request while the End-User wishes to continue the journey
     /// on the Verifier website.
-    #[error(r#"{{"error": "wallet_unavailable", "error_description": "{0}"}}"#)]
+    #[error(r#"{{"error": "wallet_unavailable", "error_description": {}}}"#, quote(.0))]
     WalletUnavailable(String),
 }
 
@@ -172,6 +173,7 @@ pub struct OidError {
     pub error: String,
 
     /// Error description.
+    #[serde(default, skip_serializing_if = "String::is_empty")]
     pub error_description: String,
 
     /// Optional client-state parameter.
@@ -185,6 +187,16 @@ pub struct OidError {
     /// The expiry time of the `c_nonce`.
     #[serde(skip_serializing_if = "Option::is_none")]
     pub c_nonce_expires_in: Option<i64>,
+
+    /// The minimum number of seconds to wait before retrying a deferred
+    /// issuance request.
+    #[serde(skip_serializing_if = "Option::is_none")]
+    pub interval: Option<i64>,
+}
+
+// Quote (and escape) a string for use in the JSON representation of an error.
+fn quote(s: &str) -> String {
+    serde_json::Value::from(s).to_string()
 }
 
 impl Serialize for Error {
-- 
2.43.0


From cd746441ffb9d61647067b4a1ae09ef467c99318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:02 +0000
Subject: [PATCH 15/40] fix: url encoding round-trips values containing
 reserved characters, quotes and flattened structs

---
 crates/core/src/urlencode.rs     |  33 +++++---
 crates/core/src/urlencode/ser.rs | 126 ++++++++++++++++---------------
 2 files changed, 88 insertions(+), 71 deletions(-)

diff --git a/crates/core/src/urlencode.rs b/crates/core/src/urlencode.rs
index d77732d..3277c7d 100644
--- a/crates/core/src/urlencode.rs
+++ b/crates/core/src/urlencode.rs
@@ -6,6 +6,7 @@ mod ser;
 use percent_encoding::percent_decode_str;
 pub use ser::{to_string, Serializer};
 use serde::de::DeserializeOwned;
+use serde_json::{Map, Value};
 
 use crate::urlencode::error::{Error, Result};
 
@@ -48,18 +49,26 @@ pub fn from_str<T>(s: &str) -> Result<T>
 where
     T: DeserializeOwned,
 {
-    // HACK: deserializing with `serde_json` makes decoding trivial and takes ~60µs
-    let decoded = percent_decode_str(s).decode_utf8_lossy();
-    let decoded = format!("{{\"{decoded}\"}}");
-    let decoded = decoded
-        .replace('=', "\":\"")
-        .replace('&', "\",\"")
-        .replace("\"[", "[")
-        .replace("]\"", "]")
-        .replace("\"{", "{")
-        .replace("}\"", "}");
-
-    serde_json::from_str(&decoded).map_err(|e| Error::Message(e.to_string()))
+    let mut params = Map::new();
+    for param in s.split('&') {
+        let Some((key, value)) = param.split_once('=') else {
+            return Err(Error::Message(format!("expected key=value, found {param}")));
+        };
+        let key = percent_decode_str(key).decode_utf8_lossy().into_owned();
+        let value = percent_decode_str(value).decode_utf8_lossy().into_owned();
+
+        // nested objects and arrays are JSON, everything else is a string
+        let value = if value.starts_with(['{', '[']) {
+            serde_json::from_str(&value).unwrap_or(Value::String(value))
+        } else {
+            Value::String(value)
+        };
+        if params.insert(key.clone(), value).is_some() {
+            return Err(Error::Message(format!("duplicate parameter {key}")));
+        }
+    }
+
+    serde_json::from_value(Value::Object(params)).map_err(|e| Error::Message(e.to_string()))
 }
 
 #[cfg(test)]
diff --git a/crates/core/src/urlencode/ser.rs b/crates/core/src/urlencode/ser.rs
index 1b1e697..19b00b1 100644
--- a/crates/core/src/urlencode/ser.rs
+++ b/crates/core/src/urlencode/ser.rs
@@ -5,7 +5,7 @@ use crate::urlencode::error::{Error, Result};
 
 const TOP_LEVEL: usize = 1;
 const UNRESERVED: &AsciiSet =
-    &NON_ALPHANUMERIC.remove(b'&').remove(b'=').remove(b'.').remove(b'_').remove(b'-').remove(b'~');
+    &NON_ALPHANUMERIC.remove(b'.').remove(b'_').remove(b'-').remove(b'~');
 
 /// Serializes a value to a url-encoded string.
 ///
@@ -50,9 +50,7 @@ where
         level: 0,
     };
     value.serialize(&mut serializer)?;
-
-    let encoded = utf8_percent_encode(&serializer.output, UNRESERVED).to_string();
-    Ok(encoded)
+    Ok(serializer.output)
 }
 
 /// A serializer for url encoding.
@@ -69,6 +67,21 @@ pub struct Serializer {
     level: usize,
 }
 
+impl Serializer {
+    // Appends percent-encoded text. Only the `&` and `=` separating top-level
+    // keys and values are added to the output as is.
+    fn push(&mut self, text: &str) {
+        self.output.extend(utf8_percent_encode(text, UNRESERVED));
+    }
+
+    // Separates items of a nested sequence or object.
+    fn push_separator(&mut self) {
+        if !self.output.ends_with("%5B") && !self.output.ends_with("%7B") {
+            self.push(",");
+        }
+    }
+}
+
 impl ser::Serializer for &mut Serializer {
     type Error = Error;
     type Ok = ();
@@ -81,7 +94,7 @@ impl ser::Serializer for &mut Serializer {
     type SerializeTupleVariant = Self;
 
     fn serialize_bool(self, v: bool) -> Result<()> {
-        self.output += if v { "true" } else { "false" };
+        self.push(if v { "true" } else { "false" });
         Ok(())
     }
 
@@ -101,7 +114,7 @@ impl ser::Serializer for &mut Serializer {
     // Not particularly efficient but this is example code anyway. A more
     // performant approach would be to use the `itoa` crate.
     fn serialize_i64(self, v: i64) -> Result<()> {
-        self.output += &v.to_string();
+        self.push(&v.to_string());
         Ok(())
     }
 
@@ -118,7 +131,7 @@ impl ser::Serializer for &mut Serializer {
     }
 
     fn serialize_u64(self, v: u64) -> Result<()> {
-        self.output += &v.to_string();
+        self.push(&v.to_string());
         Ok(())
     }
 
@@ -127,7 +140,7 @@ impl ser::Serializer for &mut Serializer {
     }
 
     fn serialize_f64(self, v: f64) -> Result<()> {
-        self.output += &v.to_string();
+        self.push(&v.to_string());
         Ok(())
     }
 
@@ -137,11 +150,9 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_str(self, v: &str) -> Result<()> {
         if self.level > TOP_LEVEL {
-            self.output += "\"";
-            self.output += v;
-            self.output += "\"";
+            self.push(&serde_json::Value::from(v).to_string());
         } else {
-            self.output += v;
+            self.push(v);
         }
         Ok(())
     }
@@ -174,7 +185,7 @@ impl ser::Serializer for &mut Serializer {
     // In Serde, unit means an anonymous value containing no data. Map this to
     // JSON as `null`.
     fn serialize_unit(self) -> Result<()> {
-        self.output += "null";
+        self.push("null");
         Ok(())
     }
 
@@ -214,11 +225,11 @@ impl ser::Serializer for &mut Serializer {
         self.level += 1;
 
         if self.level > TOP_LEVEL {
-            self.output += "{";
+            self.push("{");
             variant.serialize(&mut *self)?;
-            self.output += ":";
+            self.push(":");
             value.serialize(&mut *self)?;
-            self.output += "}";
+            self.push("}");
         } else {
             variant.serialize(&mut *self)?;
             self.output += "=";
@@ -236,13 +247,12 @@ impl ser::Serializer for &mut Serializer {
     // which in JSON is `[`.
     fn serialize_seq(self, _len: Option<usize>) -> Result<Self::SerializeSeq> {
         self.level += 1;
-        self.output += "[";
+        self.push("[");
         Ok(self)
     }
 
     // Tuples look just like sequences in JSON.
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple> {
-        self.level += 1;
         self.serialize_seq(Some(len))
     }
 
@@ -261,12 +271,13 @@ impl ser::Serializer for &mut Serializer {
         self.level += 1;
 
         if self.level > TOP_LEVEL {
-            self.output += "{";
+            self.push("{");
             variant.serialize(&mut *self)?;
-            self.output += ":[";
+            self.push(":[");
         } else {
             variant.serialize(&mut *self)?;
-            self.output += "=[";
+            self.output += "=";
+            self.push("[");
         }
 
         Ok(self)
@@ -277,7 +288,7 @@ impl ser::Serializer for &mut Serializer {
         self.level += 1;
 
         if self.level > TOP_LEVEL {
-            self.output += "{";
+            self.push("{");
         }
 
         Ok(self)
@@ -296,12 +307,13 @@ impl ser::Serializer for &mut Serializer {
         self.level += 1;
 
         if self.level > TOP_LEVEL {
-            self.output += "{";
+            self.push("{");
             variant.serialize(&mut *self)?;
-            self.output += ":{";
+            self.push(":{");
         } else {
             variant.serialize(&mut *self)?;
-            self.output += "={";
+            self.output += "=";
+            self.push("{");
         }
         Ok(self)
     }
@@ -322,14 +334,12 @@ impl ser::SerializeSeq for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        if !self.output.ends_with('[') {
-            self.output += ",";
-        }
+        self.push_separator();
         value.serialize(&mut **self)
     }
 
     fn end(self) -> Result<()> {
-        self.output += "]";
+        self.push("]");
         self.level -= 1;
         Ok(())
     }
@@ -343,14 +353,12 @@ impl ser::SerializeTuple for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        if !self.output.ends_with('[') {
-            self.output += ",";
-        }
+        self.push_separator();
         value.serialize(&mut **self)
     }
 
     fn end(self) -> Result<()> {
-        self.output += "]";
+        self.push("]");
         self.level -= 1;
         Ok(())
     }
@@ -364,14 +372,12 @@ impl ser::SerializeTupleStruct for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        if !self.output.ends_with('[') {
-            self.output += ",";
-        }
+        self.push_separator();
         value.serialize(&mut **self)
     }
 
     fn end(self) -> Result<()> {
-        self.output += "]";
+        self.push("]");
         self.level -= 1;
         Ok(())
     }
@@ -382,9 +388,9 @@ impl ser::SerializeTupleStruct for &mut Serializer {
 //
 // See the `serialize_tuple_variant` method above:
 //
-//    self.output += "{";
+//    self.push("{");
 //    variant.serialize(&mut *self)?;
-//    self.output += ":[";
+//    self.push(":[");
 //
 impl ser::SerializeTupleVariant for &mut Serializer {
     type Error = Error;
@@ -394,17 +400,15 @@ impl ser::SerializeTupleVariant for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        if !self.output.ends_with('[') {
-            self.output += ",";
-        }
+        self.push_separator();
         value.serialize(&mut **self)
     }
 
     fn end(self) -> Result<()> {
         if self.level > TOP_LEVEL {
-            self.output += "]}";
+            self.push("]}");
         } else {
-            self.output += "]";
+            self.push("]");
         }
         self.level -= 1;
         Ok(())
@@ -435,8 +439,10 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        if !self.output.ends_with('{') {
-            self.output += ",";
+        if self.level > TOP_LEVEL {
+            self.push_separator();
+        } else if !self.output.is_empty() {
+            self.output += "&";
         }
         key.serialize(&mut **self)
     }
@@ -445,12 +451,18 @@ impl ser::SerializeMap for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        self.output += ":";
+        if self.level > TOP_LEVEL {
+            self.push(":");
+        } else {
+            self.output += "=";
+        }
         value.serialize(&mut **self)
     }
 
     fn end(self) -> Result<()> {
-        self.output += "}";
+        if self.level > TOP_LEVEL {
+            self.push("}");
+        }
         self.level -= 1;
         Ok(())
     }
@@ -465,16 +477,14 @@ impl ser::SerializeStruct for &mut Serializer {
         T: ?Sized + Serialize,
     {
         if self.level > TOP_LEVEL {
-            if !self.output.ends_with('{') {
-                self.output += ",";
-            }
+            self.push_separator();
         } else if !self.output.is_empty() {
             self.output += "&";
         }
 
         key.serialize(&mut **self)?;
         if self.level > TOP_LEVEL {
-            self.output += ":";
+            self.push(":");
         } else {
             self.output += "=";
         }
@@ -483,7 +493,7 @@ impl ser::SerializeStruct for &mut Serializer {
 
     fn end(self) -> Result<()> {
         if self.level > TOP_LEVEL {
-            self.output += "}";
+            self.push("}");
             self.level -= 1;
         }
         Ok(())
@@ -500,19 +510,17 @@ impl ser::SerializeStructVariant for &mut Serializer {
     where
         T: ?Sized + Serialize,
     {
-        if !self.output.ends_with('{') {
-            self.output += ",";
-        }
+        self.push_separator();
         key.serialize(&mut **self)?;
-        self.output += ":";
+        self.push(":");
         value.serialize(&mut **self)
     }
 
     fn end(self) -> Result<()> {
         if self.level > TOP_LEVEL {
-            self.output += "}}";
+            self.push("}}");
         } else {
-            self.output += "}";
+            self.push("}");
         }
         self.level -= 1;
         Ok(())
-- 
2.43.0


From f998e32905081fd5f04764d2601aa2e05f94e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:19 +0000
Subject: [PATCH 16/40] fix: const filters match string and boolean values, and
 never match null

---
 crates/dif-exch/src/matcher.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 887443a..059cc2c 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -109,13 +109,10 @@ fn match_const(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
 
     match vc_node {
         Value::Array(arr_node) => Ok(arr_node.contains(&const_val)),
-        Value::String(str_node) => Ok(str_node == &const_val.to_string()),
+        Value::String(str_node) => Ok(str_node == const_str),
         Value::Number(num_node) => Ok(num_node.to_string() == const_val),
-        Value::Bool(bool_node) => Ok(Some(*bool_node) == const_val.as_bool()),
-        Value::Null => Ok(true),
-        Value::Object(_) => {
-            unimplemented!("object matching not implemented")
-        }
+        Value::Bool(bool_node) => Ok(bool_node.to_string() == const_val),
+        Value::Null | Value::Object(_) => Ok(false),
     }
 }
 
-- 
2.43.0


From 4da14962859ea08f019068aebef873e59e5c4b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:19 +0000
Subject: [PATCH 17/40] fix: pattern filters match the string value, unknown
 formats are an error

---
 crates/dif-exch/src/matcher.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 059cc2c..6fd2741 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -125,7 +125,13 @@ fn match_pattern(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
         return Err(anyhow!("invalid regex pattern: {pattern}"));
     };
 
-    Ok(re.captures(&vc_node.to_string()).is_some())
+    match vc_node {
+        Value::String(str_node) => Ok(re.is_match(str_node)),
+        Value::Array(arr_node) => {
+            Ok(arr_node.iter().filter_map(Value::as_str).any(|s| re.is_match(s)))
+        }
+        _ => Ok(re.is_match(&vc_node.to_string())),
+    }
 }
 
 // Check whether JSONPath result format matches that specified by `FilterValue`.
@@ -143,7 +149,7 @@ fn match_format(filter_val: &FilterValue, vc_node: &Value) -> Result<bool> {
             Value::String(str_node) => Ok(DateTime::parse_from_rfc3339(str_node).is_ok()),
             _ => Ok(false),
         },
-        _ => unimplemented!("format matching not implemented for {format}"),
+        _ => Err(anyhow!("format matching not implemented for {format}")),
     }
 }
 
-- 
2.43.0


From c7dbf0154dd42c4abb58fddf9b12aaf30ec7797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:43 +0000
Subject: [PATCH 18/40] fix: the value of an optional field must still match
 the field's filter

---
 crates/dif-exch/src/matcher.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/crates/dif-exch/src/matcher.rs b/crates/dif-exch/src/matcher.rs
index 6fd2741..799d337 100644
--- a/crates/dif-exch/src/matcher.rs
+++ b/crates/dif-exch/src/matcher.rs
@@ -35,8 +35,12 @@ impl Constraints {
         // EVERY field must match
         for field in fields {
             // if no match AND the field is not optional, constraints are not satisfied
-            if !field.matched(&vc_val).unwrap_or_default() && !field.optional.unwrap_or_default() {
-                return Ok(false);
+            // N.B. an optional field's value, when present, must still match
+            match field.matched(&vc_val) {
+                Ok(Some(true)) => {}
+                Ok(Some(false)) => return Ok(false),
+                Ok(None) | Err(_) if field.optional.unwrap_or_default() => {}
+                Ok(None) | Err(_) => return Ok(false),
             }
         }
 
@@ -50,8 +54,8 @@ impl Field {
     /// provided `VerifiableCredential`.
     /// The [Presentation Exchange 2.0.0] specification only requires one
     /// matching JSON path expression for the field to be considered
-    /// matched.
-    fn matched(&self, vc: &Value) -> Result<bool> {
+    /// matched. Returns `None` when no path selects a value.
+    fn matched(&self, vc: &Value) -> Result<Option<bool>> {
         // find the FIRST matching JSON path expression for field
         for path in &self.path {
             // execute JSONPath query
@@ -67,20 +71,16 @@ impl Field {
 
             // no filter == match(?)
             let Some(filter) = &self.filter else {
-                return Ok(true);
+                return Ok(Some(true));
             };
 
             // find FIRST node matching filter (in practice, there should only be one node)
             if let Some(node) = nodes.into_iter().next() {
-                match filter.value.matched(node) {
-                    Ok(true) => return Ok(true),
-                    Ok(false) => break,
-                    Err(e) => return Err(e),
-                }
+                return filter.value.matched(node).map(Some);
             }
         }
 
-        Ok(false)
+        Ok(None)
     }
 }
 
-- 
2.43.0


From c36262e576c105454a9e3c4f3c485b1c8d289b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:29 +0000
Subject: [PATCH 19/40] fix: wallet proves possession with the current c_nonce
 for every credential it requests

---
 vercre-holder/src/issuance/credentials.rs | 58 +++++++++++------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 0370577..3191bc7 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -85,37 +85,21 @@ pub async fn credentials(
         return Err(e);
     }
 
-    // Construct a proof to be used in the credential requests.
-    let claims = ProofClaims {
-        iss: Some(issuance.client_id.clone()),
-        aud: issuance.offer.credential_issuer.clone(),
-        iat: chrono::Utc::now().timestamp(),
-        nonce: issuance.token.c_nonce.clone(),
-    };
-    let jwt = jws::encode(Type::Proof, &claims, provider.clone()).await.map_err(|e| {
-        tracing::error!(target: "Endpoint::credentials", ?e);
-        e
-    })?;
-
     // If the flow is scope-based then we can't examine authorization details
     // but proceed instead to request credentials by format.
     if issuance.scope.is_some() {
-        credential_by_format(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_format(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
     // Otherwise the flow is definition or format based and we make a request
     // for each authorized credential identifier.
     else {
-        credential_by_identifier(provider.clone(), &mut issuance, request, &jwt).await.map_err(
-            |e| {
-                tracing::error!(target: "Endpoint::credentials", ?e);
-                e
-            },
-        )?;
+        credential_by_identifier(provider.clone(), &mut issuance, request).await.map_err(|e| {
+            tracing::error!(target: "Endpoint::credentials", ?e);
+            e
+        })?;
     }
 
     // Stash the state for the next step (save or cancel or deferred).
@@ -135,9 +119,21 @@ pub async fn credentials(
     })
 }
 
+// Construct a proof, bound to the most recent `c_nonce`, to be used in a
+// credential request.
+async fn proof_jwt(provider: &impl HolderProvider, issuance: &Issuance) -> anyhow::Result<String> {
+    let claims = ProofClaims {
+        iss: Some(issuance.client_id.clone()),
+        aud: issuance.issuer.credential_issuer.clone(),
+        iat: chrono::Utc::now().timestamp(),
+        nonce: issuance.token.c_nonce.clone(),
+    };
+    jws::encode(Type::Proof, &claims, provider.clone()).await
+}
+
 // Make a credential request by format based on the flow being by scope.
 async fn credential_by_format(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
     if request.credential_identifiers.is_some() {
         bail!("credential identifiers must be `None` for scope-based issuance");
@@ -153,12 +149,13 @@ async fn credential_by_format(
     let Some((cfg_id, config)) = config else {
         bail!("credential configuration not found for scope and format");
     };
+    let jwt = proof_jwt(&provider, issuance).await?;
     let request = CredentialRequest {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
         access_token: issuance.token.access_token.clone(),
         credential: CredentialIssuance::Format(config.format.clone()),
         proof: Some(Proof::Single {
-            proof_type: SingleProof::Jwt { jwt: jwt.into() },
+            proof_type: SingleProof::Jwt { jwt },
         }),
         ..Default::default()
     };
@@ -185,13 +182,13 @@ async fn credential_by_format(
 
 // Make a credential request by identifier.
 async fn credential_by_identifier(
-    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest, jwt: &str,
+    provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
 ) -> anyhow::Result<()> {
-    let Some(authorized) = &issuance.token.authorization_details else {
+    let Some(authorized) = issuance.token.authorization_details.clone() else {
         bail!("no authorization details in token response");
     };
 
-    for auth in authorized {
+    for auth in &authorized {
         let cfg_id = match &auth.authorization_detail.credential {
             CredentialAuthorization::ConfigurationId {
                 credential_configuration_id,
@@ -217,13 +214,14 @@ async fn credential_by_identifier(
                     continue;
                 }
             }
+            let jwt = proof_jwt(&provider, issuance).await?;
             let request = credential_request!({
                 "credential_issuer": issuance.issuer.credential_issuer.clone(),
                 "access_token": issuance.token.access_token.clone(),
                 "credential_identifier": cred_id.to_string(),
                 "proof": {
                     "proof_type": "jwt",
-                    "jwt": jwt.to_string()
+                    "jwt": jwt
                 }
             });
             let cred_res = Issuer::credential(&provider, request).await?;
-- 
2.43.0


From 9576a05b96a5abd695bff111795dbc7562321eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:29 +0000
Subject: [PATCH 20/40] fix: wallet does not panic on empty lists in issuer
 metadata

---
 vercre-holder/src/issuance/authorize.rs   | 12 ++++++++++--
 vercre-holder/src/issuance/credentials.rs |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index 34a1002..e23b38a 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -263,15 +263,23 @@ fn authorization_request(
     else {
         return Err(anyhow!("code challenge methods missing from authorization server metadata"));
     };
+    let Some(code_challenge_method) = code_challenge_methods.first() else {
+        return Err(anyhow!("code challenge methods missing from authorization server metadata"));
+    };
+    let Some(response_type) =
+        issuance.authorization_server.oauth.response_types_supported.first()
+    else {
+        return Err(anyhow!("response types missing from authorization server metadata"));
+    };
 
     Ok(AuthorizationRequest::Object(RequestObject {
         credential_issuer: issuance.issuer.credential_issuer.clone(),
-        response_type: issuance.authorization_server.oauth.response_types_supported[0].clone(),
+        response_type: response_type.clone(),
         client_id: issuance.client_id.clone(),
         redirect_uri: request.redirect_uri.clone(),
         state: Some(issuance.id.clone()),
         code_challenge,
-        code_challenge_method: code_challenge_methods[0].clone(),
+        code_challenge_method: code_challenge_method.clone(),
         authorization_details: auth_details,
         scope,
         resource: Some(issuance.issuer.credential_issuer.clone()),
diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index 3191bc7..aaf0732 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -314,9 +314,9 @@ async fn credential(
     };
 
     // Base64-encoded logo if possible.
-    if let Some(display) = &config.display {
+    if let Some(display) = config.display.as_ref().and_then(|d| d.first()) {
         // TODO: Locale?
-        if let Some(logo_info) = &display[0].logo {
+        if let Some(logo_info) = &display.logo {
             if let Some(uri) = &logo_info.uri {
                 if let Ok(logo) = Issuer::logo(provider, uri).await {
                     storable_credential.logo = Some(logo);
-- 
2.43.0


From 40ed9dde7f28b7fdb1d14488b3cbbf81772078e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:29 +0000
Subject: [PATCH 21/40] fix: wallet authorization asks only for the credentials
 the holder accepted

---
 vercre-holder/src/issuance/authorize.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vercre-holder/src/issuance/authorize.rs b/vercre-holder/src/issuance/authorize.rs
index e23b38a..3a77e7a 100644
--- a/vercre-holder/src/issuance/authorize.rs
+++ b/vercre-holder/src/issuance/authorize.rs
@@ -167,7 +167,9 @@ pub async fn authorize(
             issuance
         }
     };
-    issuance.accepted.clone_from(&request.authorization_details);
+    if request.authorization_details.is_some() {
+        issuance.accepted.clone_from(&request.authorization_details);
+    }
 
     // PKCE pair
     let verifier = pkce::code_verifier();
-- 
2.43.0


From 2ad44c1a2840e81be8b0deddf6a6ba017935cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:29 +0000
Subject: [PATCH 22/40] fix: a presentation needs no type beyond
 VerifiablePresentation

---
 crates/w3c-vc/src/model/vp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/w3c-vc/src/model/vp.rs b/crates/w3c-vc/src/model/vp.rs
index 83918b8..994bf38 100644
--- a/crates/w3c-vc/src/model/vp.rs
+++ b/crates/w3c-vc/src/model/vp.rs
@@ -156,8 +156,10 @@ impl VpBuilder {
         if self.vp.context.len() < 2 {
             bail!("context is required");
         }
-        if let Quota::One(_) = self.vp.type_ {
-            bail!("type is required");
+        if let Quota::Many(types) = &self.vp.type_ {
+            if types.is_empty() {
+                bail!("type is required");
+            }
         }
 
         Ok(self.vp)
-- 
2.43.0


From 7792fb023476a4ac48a83a60ca53d067c8dcba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:29 +0000
Subject: [PATCH 23/40] fix: do not panic parsing a short status or
 presentation, or generating a digest id

---
 crates/iso-mdl/src/mso.rs         | 2 +-
 crates/w3c-vc/src/model/vp.rs     | 2 +-
 vercre-holder/src/presentation.rs | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/iso-mdl/src/mso.rs b/crates/iso-mdl/src/mso.rs
index 72f6c45..d276270 100644
--- a/crates/iso-mdl/src/mso.rs
+++ b/crates/iso-mdl/src/mso.rs
@@ -190,7 +190,7 @@ impl DigestIdGenerator {
     pub fn gen(&mut self) -> DigestId {
         let mut digest_id;
         loop {
-            digest_id = i32::abs(rand::thread_rng().gen());
+            digest_id = rand::thread_rng().gen_range(0..=i32::MAX);
             if self.used.insert(digest_id) {
                 return digest_id;
             }
diff --git a/crates/w3c-vc/src/model/vp.rs b/crates/w3c-vc/src/model/vp.rs
index 994bf38..1294d77 100644
--- a/crates/w3c-vc/src/model/vp.rs
+++ b/crates/w3c-vc/src/model/vp.rs
@@ -170,7 +170,7 @@ impl FromStr for VerifiablePresentation {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self, Self::Err> {
-        if &s[0..1] != "{" {
+        if !s.starts_with('{') {
             // base64 encoded string
             let dec = Base64UrlUnpadded::decode_vec(s)?;
             return Ok(serde_json::from_slice(dec.as_slice())?);
diff --git a/vercre-holder/src/presentation.rs b/vercre-holder/src/presentation.rs
index c238758..48b04ad 100644
--- a/vercre-holder/src/presentation.rs
+++ b/vercre-holder/src/presentation.rs
@@ -84,8 +84,8 @@ impl FromStr for Status {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> anyhow::Result<Self> {
-        if s.starts_with("Failed") {
-            return Ok(Self::Failed(s[8..].to_string()));
+        if let Some(reason) = s.strip_prefix("Failed: ") {
+            return Ok(Self::Failed(reason.to_string()));
         }
         match s {
             "Inactive" => Ok(Self::Inactive),
-- 
2.43.0


From 74cefa17249b57cdc6ba285e7ff99d0dc05bc054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:19 +0000
Subject: [PATCH 24/40] fix: a deferred transaction is only redeemed with the
 access token that requested it

---
 vercre-issuer/src/deferred.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vercre-issuer/src/deferred.rs b/vercre-issuer/src/deferred.rs
index 379d262..f6ddee2 100644
--- a/vercre-issuer/src/deferred.rs
+++ b/vercre-issuer/src/deferred.rs
@@ -49,6 +49,12 @@ async fn process(
 
     // make credential request
     let mut cred_req = deferred_state.credential_request;
+
+    // the transaction belongs to the access token it was requested with
+    if cred_req.access_token != request.access_token {
+        return Err(Error::AccessDenied("invalid access token".into()));
+    }
+
     cred_req.credential_issuer.clone_from(&request.credential_issuer);
     cred_req.access_token.clone_from(&request.access_token);
 
-- 
2.43.0


From ddb06cee1ff47a160b48a13f158ef1dc9f057896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:19 +0000
Subject: [PATCH 25/40] fix: an empty list of proofs does not satisfy a
 configuration that demands a proof

---
 vercre-issuer/src/credential.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 44859b4..2db69fa 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -133,6 +133,10 @@ impl Context {
                 },
             };
 
+            if proof_jwts.is_empty() {
+                return Err(self.invalid_proof(provider, "proof not set").await?);
+            }
+
             for proof_jwt in proof_jwts {
                 // TODO: check proof is signed with supported algorithm (from proof_type)
                 let jwt: jws::Jwt<ProofClaims> =
-- 
2.43.0


From 66ef8bab79df65c7fa0aa76449229098f2f46f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:55 +0000
Subject: [PATCH 26/40] fix: parse authorization requests by their form, not by
 the characters they contain

---
 crates/openid/src/issuer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 47ff32e..db03938 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -434,10 +434,10 @@ impl FromStr for AuthorizationRequest {
     type Err = anyhow::Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if s.contains('=') && s.contains('&') {
-            Ok(urlencode::from_str(s)?)
+        if s.trim_start().starts_with('{') {
+            Ok(serde_json::from_str(s)?)
         } else {
-            Ok(Self::Object(serde_json::from_str(s)?))
+            Ok(urlencode::from_str(s)?)
         }
     }
 }
-- 
2.43.0


From 177a8f7226570db82bd7c44e43e54382e181ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:42 +0000
Subject: [PATCH 27/40] fix: credential status entries use the member names of
 the Bitstring Status List specification

The rename_all on the enum variant does not reach the members of the newtype it
wraps, so issued credentials carried status_purpose, status_list_index, ... and
credentials with the specified names could not be read.
---
 crates/w3c-vc/src/model/vc.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/w3c-vc/src/model/vc.rs b/crates/w3c-vc/src/model/vc.rs
index 6dbd03c..bf32009 100644
--- a/crates/w3c-vc/src/model/vc.rs
+++ b/crates/w3c-vc/src/model/vc.rs
@@ -232,6 +232,7 @@ impl Default for CredentialStatusType {
 ///
 /// [Bitstring Status List v1.0](https://www.w3.org/TR/vc-bitstring-status-list/)
 #[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
+#[serde(rename_all = "camelCase")]
 pub struct Bitstring {
     /// The purpose of the status declaration stored in the bitstring.
     pub status_purpose: StatusPurpose,
-- 
2.43.0


From f9586d0d7402176c2f0eaa50a27d204129b9e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:46 +0000
Subject: [PATCH 28/40] fix: request macros accept several grant types and
 authorization details

---
 crates/macros/src/authorization.rs | 6 +++---
 crates/macros/src/create_offer.rs  | 8 ++++----
 crates/macros/src/token.rs         | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index eb6726f..8d89c34 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -67,7 +67,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         return Err(Error::new(span, "`authorization_details` must be an array"));
     };
 
-    let mut tokens = TokenStream::new();
+    let mut tokens = Vec::new();
 
     for detail in details {
         let Some(detail) = detail.as_object() else {
@@ -88,7 +88,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         // credential_configuration_id or format?
         let credential = credential_authorization(detail)?;
 
-        tokens.extend(quote! {
+        tokens.push(quote! {
             #path::AuthorizationDetail {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #credential,
@@ -97,7 +97,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         });
     }
 
-    Ok(quote! {vec![#tokens]})
+    Ok(quote! {vec![#(#tokens),*]})
 }
 
 fn credential_authorization(detail: &HashMap<String, Value>) -> Result<TokenStream> {
diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index fbda8b5..2c49f4d 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -53,15 +53,15 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
     let path = quote! {vercre_issuer};
 
     if let Some(gts) = input {
-        let mut tokens = TokenStream::new();
+        let mut tokens = Vec::new();
 
         for gt in gts.as_array().unwrap() {
             match gt.as_str().unwrap() {
                 "urn:ietf:params:oauth:grant-type:pre-authorized_code" => {
-                    tokens.extend(quote! {#path::GrantType::PreAuthorizedCode});
+                    tokens.push(quote! {#path::GrantType::PreAuthorizedCode});
                 }
                 "authorization_code" => {
-                    tokens.extend(quote! {#path::GrantType::AuthorizationCode});
+                    tokens.push(quote! {#path::GrantType::AuthorizationCode});
                 }
                 _ => {
                     return Err(Error::new(
@@ -71,7 +71,7 @@ fn grant_types(input: Option<Value>) -> Result<TokenStream> {
                 }
             }
         }
-        Ok(quote! {Some(vec![#tokens])})
+        Ok(quote! {Some(vec![#(#tokens),*])})
     } else {
         Ok(quote! {None})
     }
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index 8124144..db6bcfd 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -92,7 +92,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         return Err(Error::new(span, "`authorization_details` must be an array"));
     };
 
-    let mut tokens = TokenStream::new();
+    let mut tokens = Vec::new();
 
     for detail in details {
         let Some(detail) = detail.as_object() else {
@@ -113,7 +113,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         // credential_configuration_id or format?
         let configuration = credential_configuration(detail)?;
 
-        tokens.extend(quote! {
+        tokens.push(quote! {
             #path::AuthorizationDetail {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #configuration,
@@ -122,7 +122,7 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
         });
     }
 
-    Ok(quote! {vec![#tokens]})
+    Ok(quote! {vec![#(#tokens),*]})
 }
 
 fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStream> {
-- 
2.43.0


From 251fbcdba718b8412a97b992b8b27f76372020b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:46 +0000
Subject: [PATCH 29/40] fix: create_offer_request! defaults the send type
 without an import

---
 crates/macros/src/create_offer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index 2c49f4d..dc2bb15 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -31,7 +31,7 @@ pub fn request(input: &Json) -> Result<TokenStream> {
 
     let tx_code_required = input.get("tx_code_required").unwrap_or(Value::Bool(false));
     let send_type =
-        input.get("send_type").map_or_else(|| quote! {SendType::ByVal}, |v| quote! {#v.into()});
+        input.get("send_type").map_or_else(|| quote! {#path::SendType::ByVal}, |v| quote! {#v.into()});
 
     // return error for any unexpected fields
     input.check_consumed()?;
-- 
2.43.0


From 0387c31456337d855f65ccc9ce25e3cd5d6cdab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:46 +0000
Subject: [PATCH 30/40] fix: request macros convert whole expressions

---
 crates/macros/src/create_offer.rs | 2 +-
 crates/macros/src/credential.rs   | 4 ++--
 crates/macros/src/parse.rs        | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/macros/src/create_offer.rs b/crates/macros/src/create_offer.rs
index dc2bb15..a5ec80b 100644
--- a/crates/macros/src/create_offer.rs
+++ b/crates/macros/src/create_offer.rs
@@ -31,7 +31,7 @@ pub fn request(input: &Json) -> Result<TokenStream> {
 
     let tx_code_required = input.get("tx_code_required").unwrap_or(Value::Bool(false));
     let send_type =
-        input.get("send_type").map_or_else(|| quote! {#path::SendType::ByVal}, |v| quote! {#v.into()});
+        input.get("send_type").map_or_else(|| quote! {#path::SendType::ByVal}, |v| quote! {Into::into(#v)});
 
     // return error for any unexpected fields
     input.check_consumed()?;
diff --git a/crates/macros/src/credential.rs b/crates/macros/src/credential.rs
index 72a33a0..c0518b3 100644
--- a/crates/macros/src/credential.rs
+++ b/crates/macros/src/credential.rs
@@ -38,7 +38,7 @@ fn credential_issuance(input: &mut Json) -> Result<TokenStream> {
     if let Some(identifier) = input.get("credential_identifier") {
         Ok(quote! {
             #path::CredentialIssuance::Identifier {
-                credential_identifier: #identifier.into(),
+                credential_identifier: Into::into(#identifier),
             }
         })
     } else if let Some(format) = input.get("format") {
@@ -114,7 +114,7 @@ fn proof(input: &mut Json) -> Result<TokenStream> {
         return Ok(quote! {
             Some(#path::Proof::Single{
                 proof_type: #path::SingleProof::Jwt{
-                    jwt: #jwt.into(),
+                    jwt: Into::into(#jwt),
                 },
             })
         });
diff --git a/crates/macros/src/parse.rs b/crates/macros/src/parse.rs
index 5a8ca84..219140b 100644
--- a/crates/macros/src/parse.rs
+++ b/crates/macros/src/parse.rs
@@ -29,7 +29,7 @@ impl Json {
     pub fn option(&mut self, key: &str) -> Value {
         self.fields.remove(key).map_or_else(
             || Value::Tokens(quote! {None}),
-            |v: Value| Value::Tokens(quote! {Some(#v.into())}),
+            |v: Value| Value::Tokens(quote! {Some(Into::into(#v))}),
         )
     }
 
-- 
2.43.0


From 5dcbe812725a74e785c63f89ea815e20b58f94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:46 +0000
Subject: [PATCH 31/40] fix: a send type written as in JSON means the same as
 text

---
 crates/openid/src/issuer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index db03938..2eb3677 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -143,7 +143,7 @@ impl fmt::Display for SendType {
 impl From<String> for SendType {
     fn from(s: String) -> Self {
         match s.as_str() {
-            "by_ref" => Self::ByRef,
+            "by_ref" | "ByRef" => Self::ByRef,
             _ => Self::ByVal,
         }
     }
-- 
2.43.0


From cbd826ea17f52cd9e9772b094aeebab198ce8397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:25 +0000
Subject: [PATCH 32/40] fix: request macros keep the claims, locations and
 contexts they are given

---
 crates/macros/src/authorization.rs |  98 ++++++++++++-----
 crates/macros/src/credential.rs    |  31 +-----
 crates/macros/src/token.rs         | 168 +----------------------------
 vercre-issuer/src/lib.rs           |   1 +
 4 files changed, 76 insertions(+), 222 deletions(-)

diff --git a/crates/macros/src/authorization.rs b/crates/macros/src/authorization.rs
index 8d89c34..b51beee 100644
--- a/crates/macros/src/authorization.rs
+++ b/crates/macros/src/authorization.rs
@@ -59,7 +59,7 @@ pub fn request(input: &Json) -> Result<TokenStream> {
     })
 }
 
-fn authorization_details(details: &Value) -> Result<TokenStream> {
+pub fn authorization_details(details: &Value) -> Result<TokenStream> {
     let span = Span::call_site();
     let path = quote! {vercre_issuer};
 
@@ -87,12 +87,15 @@ fn authorization_details(details: &Value) -> Result<TokenStream> {
 
         // credential_configuration_id or format?
         let credential = credential_authorization(detail)?;
+        let locations = detail
+            .get("locations")
+            .map_or_else(|| quote! {None}, |locations| quote! {Some(#locations)});
 
         tokens.push(quote! {
             #path::AuthorizationDetail {
                 type_: #path::AuthorizationDetailType::OpenIdCredential,
                 credential: #credential,
-                locations: None
+                locations: #locations,
             }
         });
     }
@@ -110,6 +113,12 @@ fn credential_authorization(detail: &HashMap<String, Value>) -> Result<TokenStre
         let claims = if let Some(defn_value) = detail.get("credential_definition") {
             let credential_definition = configuration_definition(defn_value)?;
             quote! {Some(#path::ProfileClaims::W3c(#credential_definition))}
+        } else if let Some(claims_value) = detail.get("claims") {
+            let Some(claimset) = claims_value.as_object() else {
+                return Err(Error::new(span, "`claims` must be an object"));
+            };
+            let claims = claims(claimset)?;
+            quote! {#claims.map(#path::ProfileClaims::IsoMdl)}
         } else {
             quote! {None}
         };
@@ -154,12 +163,9 @@ fn configuration_definition(defn_value: &Value) -> Result<TokenStream> {
     };
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
-    // let context = if let Some(context) = credential_definition.get("@context") {
-    //     quote! {Some(#context)}
-    // } else {
-    //     quote! {None}
-    // };
-
+    let context = credential_definition
+        .get("@context")
+        .map_or_else(|| quote! {None}, |context| quote! {Some(#context)});
     let type_ = credential_definition
         .get("type")
         .map_or_else(|| quote! {None}, |type_array| quote! {Some(#type_array)});
@@ -167,14 +173,14 @@ fn configuration_definition(defn_value: &Value) -> Result<TokenStream> {
 
     Ok(quote! {
         #path::CredentialDefinition {
-            context: None,
+            context: #context,
             type_: #type_,
             credential_subject: #subject,
         }
     })
 }
 
-fn format_definition(defn_value: &Value) -> Result<TokenStream> {
+pub fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     let span = Span::call_site();
     let path = quote! {vercre_issuer};
 
@@ -183,9 +189,9 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
     };
 
     // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
-    // let Some(context) = credential_definition.get("@context") else {
-    //     return Err(Error::new(span, "`@context` is not set"));
-    // };
+    let context = credential_definition
+        .get("@context")
+        .map_or_else(|| quote! {None}, |context| quote! {Some(#context)});
 
     let Some(type_array) = credential_definition.get("type") else {
         return Err(Error::new(span, "`type` is not set"));
@@ -195,7 +201,7 @@ fn format_definition(defn_value: &Value) -> Result<TokenStream> {
 
     Ok(quote! {
         #path::CredentialDefinition {
-            context: None,
+            context: #context,
             type_: Some(#type_array),
             credential_subject: #subject,
         }
@@ -211,7 +217,7 @@ fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
         };
 
         // build claims map
-        let claims = claims(credential_subject);
+        let claims = claims(credential_subject)?;
 
         Ok(quote! {#claims})
     } else {
@@ -219,21 +225,59 @@ fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
     }
 }
 
-fn claims(claimset: &HashMap<String, Value>) -> TokenStream {
+fn claims(claimset: &HashMap<String, Value>) -> Result<TokenStream> {
     let path = quote! {vercre_issuer};
+    let mut entries = Vec::new();
 
-    let claims = claimset.iter().map(|(k, v)| {
-        if let Some(nested) = v.as_object()
-            && !nested.is_empty()
-        {
-            let claims = claims(nested);
-            quote! {(#k.to_string(), #path::Claim::Set(#claims.unwrap()))}
+    for (k, v) in claimset {
+        let Some(claim) = v.as_object() else {
+            return Err(Error::new(Span::call_site(), format!("claim `{k}` must be an object")));
+        };
+
+        // a claim is either a definition or a set of nested claims
+        let nested = claim
+            .iter()
+            .filter(|(k, _)| !matches!(k.as_str(), "mandatory" | "value_type" | "display"))
+            .map(|(k, v)| (k.clone(), v.clone()))
+            .collect::<HashMap<_, _>>();
+
+        entries.push(if nested.is_empty() {
+            let definition = claim_definition(claim)?;
+            quote! {(#k.to_string(), #path::Claim::Entry(#definition))}
         } else {
-            quote! {(#k.to_string(), #path::Claim::Entry(#path::ClaimDefinition::default()))}
-        }
-    });
+            let claims = claims(&nested)?;
+            quote! {(#k.to_string(), #path::Claim::Set(#claims.unwrap()))}
+        });
+    }
 
-    quote! {
-        Some(std::collections::HashMap::from([#(#claims),*]))
+    Ok(quote! {
+        Some(std::collections::HashMap::from([#(#entries),*]))
+    })
+}
+
+fn claim_definition(claim: &HashMap<String, Value>) -> Result<TokenStream> {
+    let span = Span::call_site();
+    let path = quote! {vercre_issuer};
+
+    let mandatory = claim
+        .get("mandatory")
+        .map_or_else(|| quote! {None}, |mandatory| quote! {Some(#mandatory)});
+    let value_type = match claim.get("value_type").map(Value::as_str) {
+        None => quote! {None},
+        Some(Some("string")) => quote! {Some(#path::ValueType::String)},
+        Some(Some("number")) => quote! {Some(#path::ValueType::Number)},
+        Some(Some("image")) => quote! {Some(#path::ValueType::Image)},
+        Some(_) => return Err(Error::new(span, "unknown `value_type`")),
+    };
+    if claim.contains_key("display") {
+        return Err(Error::new(span, "`display` is not supported in a claim"));
     }
+
+    Ok(quote! {
+        #path::ClaimDefinition {
+            mandatory: #mandatory,
+            value_type: #value_type,
+            display: None,
+        }
+    })
 }
diff --git a/crates/macros/src/credential.rs b/crates/macros/src/credential.rs
index c0518b3..01f6460 100644
--- a/crates/macros/src/credential.rs
+++ b/crates/macros/src/credential.rs
@@ -2,7 +2,8 @@ use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
-use crate::parse::{Json, Value};
+use crate::authorization::format_definition;
+use crate::parse::Json;
 
 // Create strongly typed `CredentialRequest` from JSON-like input,
 // doing basic validation and setting sensible defaults.
@@ -62,34 +63,6 @@ fn credential_issuance(input: &mut Json) -> Result<TokenStream> {
     }
 }
 
-fn format_definition(defn_value: &Value) -> Result<TokenStream> {
-    let span = Span::call_site();
-    let path = quote! {vercre_issuer};
-
-    let Some(credential_definition) = defn_value.as_object() else {
-        return Err(Error::new(span, "`credential_definition` must be an object"));
-    };
-
-    // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
-    // let Some(context) = credential_definition.get("@context") else {
-    //     return Err(Error::new(span, "`@context` is not set"));
-    // };
-
-    let Some(type_array) = credential_definition.get("type") else {
-        return Err(Error::new(span, "`type` is not set"));
-    };
-
-    // let subject = subject(credential_definition)?;
-
-    Ok(quote! {
-        #path::CredentialDefinition {
-            credential_subject: None,
-            context: None,
-            type_: Some(#type_array),
-        }
-    })
-}
-
 fn proof(input: &mut Json) -> Result<TokenStream> {
     let path = quote! {vercre_issuer};
     let span = Span::call_site();
diff --git a/crates/macros/src/token.rs b/crates/macros/src/token.rs
index db6bcfd..2bc5b48 100644
--- a/crates/macros/src/token.rs
+++ b/crates/macros/src/token.rs
@@ -1,10 +1,9 @@
-use std::collections::HashMap;
-
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::parse::{Error, Result};
 
-use crate::parse::{Json, Value};
+use crate::authorization::authorization_details;
+use crate::parse::Json;
 
 pub fn request(input: &Json) -> Result<TokenStream> {
     // let path = quote! {vercre_openid::issuer};
@@ -83,166 +82,3 @@ fn authorization_code(input: &mut Json) -> Result<TokenStream> {
         }
     })
 }
-
-fn authorization_details(details: &Value) -> Result<TokenStream> {
-    let span = Span::call_site();
-    let path = quote! {vercre_issuer};
-
-    let Some(details) = details.as_array() else {
-        return Err(Error::new(span, "`authorization_details` must be an array"));
-    };
-
-    let mut tokens = Vec::new();
-
-    for detail in details {
-        let Some(detail) = detail.as_object() else {
-            return Err(Error::new(span, "`authorization_detail` must be an object"));
-        };
-
-        // check type is set and is `openid_credential`
-        if let Some(type_) = detail.get("type") {
-            if let Some(t) = type_.as_str()
-                && t != "openid_credential"
-            {
-                return Err(Error::new(span, "`type` must be `openid_credential`"));
-            }
-        } else {
-            return Err(Error::new(span, "`type` is not set"));
-        }
-
-        // credential_configuration_id or format?
-        let configuration = credential_configuration(detail)?;
-
-        tokens.push(quote! {
-            #path::AuthorizationDetail {
-                type_: #path::AuthorizationDetailType::OpenIdCredential,
-                credential: #configuration,
-                locations: None
-            }
-        });
-    }
-
-    Ok(quote! {vec![#(#tokens),*]})
-}
-
-fn credential_configuration(detail: &HashMap<String, Value>) -> Result<TokenStream> {
-    let span = Span::call_site();
-    let path = quote! {vercre_issuer};
-
-    // credential_configuration_id or format?
-    if let Some(credential_configuration_id) = detail.get("credential_configuration_id") {
-        // credential_definition is optional
-        let claims = if let Some(defn_value) = detail.get("credential_definition") {
-            let credential_definition = configuration_definition(defn_value)?;
-            quote! {Some(#path::ProfileW3c{
-                credential_definition:#credential_definition
-            })}
-        } else {
-            quote! {None}
-        };
-
-        Ok(quote! {
-            #path::CredentialAuthorization::ConfigurationId {
-                credential_configuration_id: #credential_configuration_id,
-                claims: #claims,
-            }
-        })
-    } else if let Some(format) = detail.get("format") {
-        // credential_definition is required
-        let Some(defn_value) = detail.get("credential_definition") else {
-            return Err(Error::new(span, "`credential_definition` is not set"));
-        };
-        let credential_definition = format_definition(defn_value)?;
-
-        match format.as_str() {
-            Some("jwt_vc_json") => Ok(quote! {
-                #path::CredentialAuthorization::Format (
-                    #path::Format::JwtVcJson(#path::ProfileW3c{
-                        credential_definition: #credential_definition
-                    }),
-                )
-            }),
-            _ => Err(Error::new(span, "unknown `format`")),
-        }
-    } else {
-        return Err(Error::new(
-            span,
-            "either `credential_configuration_id` or `format` must be set",
-        ));
-    }
-}
-
-fn configuration_definition(defn_value: &Value) -> Result<TokenStream> {
-    let span = Span::call_site();
-    let path = quote! {vercre_issuer};
-
-    let Some(credential_definition) = defn_value.as_object() else {
-        return Err(Error::new(span, "`credential_definition` must be an object"));
-    };
-    let context = credential_definition
-        .get("@context")
-        .map_or_else(|| quote! {None}, |context| quote! {Some(#context)});
-    let type_ = credential_definition
-        .get("type")
-        .map_or_else(|| quote! {None}, |type_array| quote! {Some(#type_array)});
-
-    let subject = subject(credential_definition)?;
-
-    Ok(quote! {
-        #path::CredentialDefinition {
-            credential_subject: #subject,
-            context: #context,
-            type_: #type_,
-        }
-    })
-}
-
-fn format_definition(defn_value: &Value) -> Result<TokenStream> {
-    let span = Span::call_site();
-    let path = quote! {vercre_issuer};
-
-    let Some(credential_definition) = defn_value.as_object() else {
-        return Err(Error::new(span, "`credential_definition` must be an object"));
-    };
-
-    // TODO: only allow @context if format is ldp-vc or jwt_vc_json-ld
-    // let Some(context) = credential_definition.get("@context") else {
-    //     return Err(Error::new(span, "`@context` is not set"));
-    // };
-
-    let Some(type_array) = credential_definition.get("type") else {
-        return Err(Error::new(span, "`type` is not set"));
-    };
-
-    let subject = subject(credential_definition)?;
-
-    Ok(quote! {
-        #path::CredentialDefinition {
-            credential_subject: #subject,
-            context: None,
-            type_: Some(#type_array),
-        }
-    })
-}
-
-fn subject(definition: &HashMap<String, Value>) -> Result<TokenStream> {
-    let span = Span::call_site();
-    let path = quote! {vercre_issuer};
-
-    if let Some(subject_value) = definition.get("credentialSubject") {
-        let Some(credential_subject) = subject_value.as_object() else {
-            return Err(Error::new(span, "`credentialSubject` must be an object"));
-        };
-
-        // build claims map
-        let claims = credential_subject.iter().map(|(k, _)| {
-            quote! {(#k.to_string(), #path::ClaimDefinition::Claim(#path::ClaimDefinition::default()))}
-        });
-
-        Ok(quote! {
-            Some(std::collections::HashMap::from([#(#claims),*]))
-        })
-    } else {
-        Ok(quote! {None})
-    }
-}
diff --git a/vercre-issuer/src/lib.rs b/vercre-issuer/src/lib.rs
index 10c24cf..1305f69 100644
--- a/vercre-issuer/src/lib.rs
+++ b/vercre-issuer/src/lib.rs
@@ -139,6 +139,7 @@ pub use vercre_openid::issuer::{
     ProfileSdJwt, ProfileW3c, Proof, ProofClaims, PushedAuthorizationRequest,
     PushedAuthorizationResponse, RegistrationRequest, RegistrationResponse, RequestObject,
     SendType, SingleProof, TokenGrantType, TokenRequest, TokenResponse, TxCode,
+    ValueType,
 };
 pub use vercre_openid::Result;
 pub use vercre_w3c_vc::model::{
-- 
2.43.0


From 9fa605fee53aac7fd596062e0fbe01c71d3ba1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:57 +0000
Subject: [PATCH 33/40] fix: a credential carries only the claims its
 authorization was limited to

---
 crates/openid/src/issuer.rs | 11 +++++++++++
 vercre-issuer/src/token.rs  | 13 +++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/openid/src/issuer.rs b/crates/openid/src/issuer.rs
index 2eb3677..6ac3903 100644
--- a/crates/openid/src/issuer.rs
+++ b/crates/openid/src/issuer.rs
@@ -681,6 +681,17 @@ impl Default for CredentialAuthorization {
 
 /// `PartialEq` for `CredentialAuthorization` checks for equivalence using
 /// `credential_configuration_id` or `format`, ecluding claims.
+impl CredentialAuthorization {
+    /// Claims requested for the credential, if limited to a subset.
+    #[must_use]
+    pub fn claims(&self) -> Option<HashMap<String, Claim>> {
+        match self {
+            Self::ConfigurationId { claims, .. } => claims.as_ref().and_then(ProfileClaims::claims),
+            Self::Format(fmt) => fmt.claims(),
+        }
+    }
+}
+
 impl PartialEq for CredentialAuthorization {
     fn eq(&self, other: &Self) -> bool {
         match self {
diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index bbb31c4..26fddfc 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -260,7 +260,10 @@ async fn retain_details(
             if let ItemType::AuthorizationDetail(ad) = &item.item {
                 if ad.credential == auth_det.credential {
                     verify_claims(&issuer, &auth_det.credential)?;
-                    retained.push(item.clone());
+                    retained.push(AuthorizedItem {
+                        item: ItemType::AuthorizationDetail(auth_det.clone()),
+                        ..item.clone()
+                    });
                     found = true;
                     break;
                 }
@@ -331,13 +334,19 @@ fn authorized_credentials(items: &[AuthorizedItem]) -> HashMap<String, Authorize
     let mut authorized = HashMap::new();
 
     for item in items {
+        let claim_ids = match &item.item {
+            ItemType::AuthorizationDetail(ad) => ad.credential.claims(),
+            ItemType::Scope(_) => None,
+        }
+        .map(|claims| claims.into_keys().collect::<Vec<_>>());
+
         for identifier in &item.credential_identifiers {
             authorized.insert(
                 identifier.clone(),
                 Authorized {
                     credential_identifier: identifier.clone(),
                     credential_configuration_id: item.credential_configuration_id.clone(),
-                    claim_ids: None,
+                    claim_ids: claim_ids.clone(),
                 },
             );
         }
-- 
2.43.0


From 4eb8c6bd55ceeb5550fd93b0183cfb4a02b58268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:58 +0000
Subject: [PATCH 34/40] fix: claims are narrowed at every level, not only the
 outermost

---
 vercre-issuer/src/credential.rs | 40 +++++++++++++++------------------
 vercre-issuer/src/state.rs      |  5 +++--
 vercre-issuer/src/token.rs      |  3 +--
 3 files changed, 22 insertions(+), 26 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 2db69fa..8177f24 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -8,15 +8,17 @@
 //! formats in one Batch Credential Request. This includes Credentials of the
 //! same type and multiple formats, different types and one format, or both.
 
+use std::collections::HashMap;
 use std::fmt::Debug;
 
 use chrono::{DateTime, Utc};
+use serde_json::{Map, Value};
 use tracing::instrument;
 use vercre_core::{gen, Kind};
 use vercre_infosec::jose::jws::{self, KeyType, Type};
 use vercre_infosec::{SecOps, Signer};
 use vercre_openid::issuer::{
-    CredentialConfiguration, CredentialDefinition, CredentialDisplay, CredentialIssuance,
+    Claim, CredentialConfiguration, CredentialDefinition, CredentialDisplay, CredentialIssuance,
     CredentialRequest, CredentialResponse, CredentialResponseType, Dataset, Format, Issuer,
     Metadata, MultipleProofs, Proof, ProofClaims, Provider, SingleProof, StateStore, Subject,
 };
@@ -396,30 +398,14 @@ impl Context {
             .map_err(|e| Error::ServerError(format!("issue populating claims: {e}")))?;
 
         // narrow claimset to those previously authorized
-        if let Some(claim_ids) = &self.authorized.claim_ids {
-            dataset.claims.retain(|k, _| claim_ids.contains(k));
+        if let Some(claims) = &self.authorized.claim_ids {
+            narrow(&mut dataset.claims, claims);
         }
 
-        // narrow of claimset from format/credential_definition
+        // narrow claimset to those requested by format/credential_definition
         if let CredentialIssuance::Format(fmt) = &request.credential {
-            let claim_ids = match &fmt {
-                Format::JwtVcJson(w3c) | Format::JwtVcJsonLd(w3c) | Format::LdpVc(w3c) => w3c
-                    .credential_definition
-                    .credential_subject
-                    .as_ref()
-                    .map(|subj| subj.keys().cloned().collect::<Vec<String>>()),
-                Format::IsoMdl(mdl) => mdl
-                    .claims
-                    .as_ref()
-                    .map(|claimset| claimset.keys().cloned().collect::<Vec<String>>()),
-                Format::VcSdJwt(sd_jwt) => sd_jwt
-                    .claims
-                    .as_ref()
-                    .map(|claimset| claimset.keys().cloned().collect::<Vec<String>>()),
-            };
-
-            if let Some(claim_ids) = &claim_ids {
-                dataset.claims.retain(|k, _| claim_ids.contains(k));
+            if let Some(claims) = &fmt.claims() {
+                narrow(&mut dataset.claims, claims);
             }
         };
 
@@ -455,6 +441,16 @@ impl Context {
     }
 }
 
+// Narrow a claimset, including nested claims, to the requested claims.
+fn narrow(claimset: &mut Map<String, Value>, requested: &HashMap<String, Claim>) {
+    claimset.retain(|k, _| requested.contains_key(k));
+    for (key, value) in claimset {
+        if let (Value::Object(nested), Some(Claim::Set(requested))) = (value, requested.get(key)) {
+            narrow(nested, requested);
+        }
+    }
+}
+
 // Extract language object name and description from a `CredentialDisplay`
 // vector.
 fn create_names(display: &Vec<CredentialDisplay>) -> (Option<LangString>, Option<LangString>) {
diff --git a/vercre-issuer/src/state.rs b/vercre-issuer/src/state.rs
index 7d20f59..315e4ac 100644
--- a/vercre-issuer/src/state.rs
+++ b/vercre-issuer/src/state.rs
@@ -6,7 +6,8 @@ use std::collections::HashMap;
 use chrono::{DateTime, TimeDelta, Utc};
 use serde::{Deserialize, Serialize};
 use vercre_openid::issuer::{
-    AuthorizationDetail, CodeChallengeMethod, CredentialOffer, CredentialRequest, RequestObject,
+    AuthorizationDetail, Claim, CodeChallengeMethod, CredentialOffer, CredentialRequest,
+    RequestObject,
 };
 use vercre_w3c_vc::model::VerifiableCredential;
 
@@ -105,7 +106,7 @@ pub struct Authorized {
     /// requested (and has been authorized for) issuance of a credential
     /// containing subset of claims.
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub claim_ids: Option<Vec<String>>,
+    pub claim_ids: Option<HashMap<String, Claim>>,
 }
 
 /// Authorization state.
diff --git a/vercre-issuer/src/token.rs b/vercre-issuer/src/token.rs
index 26fddfc..6b4dbf2 100644
--- a/vercre-issuer/src/token.rs
+++ b/vercre-issuer/src/token.rs
@@ -337,8 +337,7 @@ fn authorized_credentials(items: &[AuthorizedItem]) -> HashMap<String, Authorize
         let claim_ids = match &item.item {
             ItemType::AuthorizationDetail(ad) => ad.credential.claims(),
             ItemType::Scope(_) => None,
-        }
-        .map(|claims| claims.into_keys().collect::<Vec<_>>());
+        };
 
         for identifier in &item.credential_identifiers {
             authorized.insert(
-- 
2.43.0


From a17ce27c835ef88cc600bee49e2bcb20946bf733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:58 +0000
Subject: [PATCH 35/40] fix: wallet keeps the c_nonce renewed by deferred and
 scope-based issuance

---
 vercre-holder/src/issuance/credentials.rs | 21 ++++++++++++++-------
 vercre-holder/src/issuance/deferred.rs    |  6 +++++-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/vercre-holder/src/issuance/credentials.rs b/vercre-holder/src/issuance/credentials.rs
index aaf0732..b0e2fb2 100644
--- a/vercre-holder/src/issuance/credentials.rs
+++ b/vercre-holder/src/issuance/credentials.rs
@@ -14,7 +14,7 @@ use vercre_issuer::{CredentialAuthorization, CredentialIssuance, Format, SingleP
 use vercre_macros::credential_request;
 use vercre_openid::issuer::{
     CredentialConfiguration, CredentialRequest, CredentialResponse, CredentialResponseType, Proof,
-    ProofClaims,
+    ProofClaims, TokenResponse,
 };
 use vercre_w3c_vc::model::VerifiableCredential;
 use vercre_w3c_vc::proof::{Payload, Verify};
@@ -131,6 +131,17 @@ async fn proof_jwt(provider: &impl HolderProvider, issuance: &Issuance) -> anyho
     jws::encode(Type::Proof, &claims, provider.clone()).await
 }
 
+// Keep the `c_nonce` provided with a credential response for use in subsequent
+// proofs.
+pub fn renew_nonce(token: &mut TokenResponse, resp: &CredentialResponse) {
+    if resp.c_nonce.is_some() {
+        token.c_nonce.clone_from(&resp.c_nonce);
+    }
+    if resp.c_nonce_expires_in.is_some() {
+        token.c_nonce_expires_in.clone_from(&resp.c_nonce_expires_in);
+    }
+}
+
 // Make a credential request by format based on the flow being by scope.
 async fn credential_by_format(
     provider: impl HolderProvider, issuance: &mut Issuance, request: &CredentialsRequest,
@@ -177,6 +188,7 @@ async fn credential_by_format(
             return Err(e);
         }
     };
+    renew_nonce(&mut issuance.token, &cred_res);
     Ok(())
 }
 
@@ -238,12 +250,7 @@ async fn credential_by_identifier(
                     return Err(e);
                 }
             };
-            if cred_res.c_nonce.is_some() {
-                issuance.token.c_nonce.clone_from(&cred_res.c_nonce);
-            }
-            if cred_res.c_nonce_expires_in.is_some() {
-                issuance.token.c_nonce_expires_in.clone_from(&cred_res.c_nonce_expires_in);
-            }
+            renew_nonce(&mut issuance.token, &cred_res);
         }
     }
     Ok(())
diff --git a/vercre-holder/src/issuance/deferred.rs b/vercre-holder/src/issuance/deferred.rs
index baa4dde..e0c4466 100644
--- a/vercre-holder/src/issuance/deferred.rs
+++ b/vercre-holder/src/issuance/deferred.rs
@@ -9,7 +9,9 @@ use tracing::instrument;
 use vercre_issuer::DeferredCredentialRequest;
 
 use super::{Issuance, Status};
-use crate::issuance::credentials::{process_credential_response, CredentialsResponse};
+use crate::issuance::credentials::{
+    process_credential_response, renew_nonce, CredentialsResponse,
+};
 use crate::provider::{HolderProvider, Issuer, StateStore};
 
 /// Deferred credential request.
@@ -91,6 +93,8 @@ pub async fn deferred(
         }
     };
 
+    renew_nonce(&mut issuance.token, &deferred_response.credential_response);
+
     // Release issuance state if no more deferred credentials and no
     // credentials to save, otherwise stash the state.
     if issuance.deferred.is_empty() && issuance.credentials.is_empty() {
-- 
2.43.0


From b6e87abdbbd42af30a220033e9d74a291e6ebc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:33 +0000
Subject: [PATCH 36/40] fix: a credential carries every type of its
 configuration

Only the second type of the configuration's credential definition was put in
the credential, so a configuration with three types issued a credential that
lacked the last.
---
 vercre-issuer/src/credential.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/vercre-issuer/src/credential.rs b/vercre-issuer/src/credential.rs
index 8177f24..41df8a2 100644
--- a/vercre-issuer/src/credential.rs
+++ b/vercre-issuer/src/credential.rs
@@ -290,11 +290,16 @@ impl Context {
         let (name, description) =
             self.configuration.display.as_ref().map_or((None, None), create_names);
 
-        VerifiableCredential::builder()
+        // N.B. the builder provides the first type (`VerifiableCredential`)
+        let builder = types
+            .iter()
+            .skip(1)
+            .fold(VerifiableCredential::builder(), |builder, type_| builder.add_type(type_));
+
+        builder
             .add_context(Kind::String(format!("{credential_issuer}/credentials/v1")))
             // TODO: generate credential id
             .id(format!("{credential_issuer}/credentials/{credential_type}"))
-            .add_type(credential_type)
             .add_name(name)
             .add_description(description)
             .issuer(credential_issuer)
-- 
2.43.0


From b3850d754dd8dcd2d98d884fd8b331c5de770bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:41 +0000
Subject: [PATCH 37/40] fix: a presentation made for another audience is
 refused

The verifier compared the presentation's nonce but not its audience, so a
presentation that a wallet made for one verifier was accepted by another that
had passed on its request.
---
 vercre-verifier/src/response.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vercre-verifier/src/response.rs b/vercre-verifier/src/response.rs
index 55a9995..f918966 100644
--- a/vercre-verifier/src/response.rs
+++ b/vercre-verifier/src/response.rs
@@ -76,8 +76,10 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
 
     // check nonce matches
     for vp_val in &vp_token {
-        let (vp, nonce) = match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider).await {
-            Ok(Payload::Vp { vp, nonce, .. }) => (vp, nonce),
+        let (vp, nonce, client_id) = match vercre_w3c_vc::proof::verify(Verify::Vp(vp_val), &provider)
+            .await
+        {
+            Ok(Payload::Vp { vp, nonce, client_id }) => (vp, nonce, client_id),
             Ok(_) => return Err(Error::InvalidRequest("proof payload is invalid".into())),
             Err(e) => return Err(Error::ServerError(format!("issue verifying VP proof: {e}"))),
         };
@@ -88,6 +90,10 @@ async fn verify(provider: impl Provider, request: &ResponseRequest) -> Result<()
         if nonce != saved_req.nonce {
             return Err(Error::InvalidRequest("nonce does not match".into()));
         }
+        // N.B. an embedded proof does not name its audience
+        if matches!(vp_val, Kind::String(_)) && client_id != saved_req.client_id {
+            return Err(Error::InvalidRequest("audience does not match".into()));
+        }
         vps.push(vp);
     }
 
-- 
2.43.0


From 6f5583c3b9fbef60ae503eb8191bd8dedb92d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:35 +0000
Subject: [PATCH 38/40] fix: a presentation signed by someone other than its
 holder is refused

The signature was checked against the key named in the token, but nothing tied
that key to the holder the presentation names.
---
 crates/w3c-vc/src/proof.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/w3c-vc/src/proof.rs b/crates/w3c-vc/src/proof.rs
index 0bfdb7e..7d36359 100644
--- a/crates/w3c-vc/src/proof.rs
+++ b/crates/w3c-vc/src/proof.rs
@@ -157,6 +157,16 @@ pub async fn verify(proof: Verify<'_>, resolver: &impl DidResolver) -> anyhow::R
                 Kind::String(token) => {
                     let jwt: jwt::Jwt<jose::VpClaims> =
                         jws::decode(token, verify_key!(resolver)).await?;
+
+                    // the presentation must be signed by its holder
+                    let jws::KeyType::KeyId(kid) = &jwt.header.key else {
+                        bail!("key ID not found in VerifiablePresentation header");
+                    };
+                    let holder = jwt.claims.vp.holder.as_deref();
+                    if holder.is_some_and(|holder| kid.split('#').next() != Some(holder)) {
+                        bail!("VerifiablePresentation is not signed by its holder");
+                    }
+
                     Ok(Payload::Vp {
                         vp: jwt.claims.vp,
                         client_id: jwt.claims.aud,
-- 
2.43.0


From 85cc769d354e37407e0b0a213202963501a2bd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:41 +0000
Subject: [PATCH 39/40] fix: an expired presentation is refused

The expiry time of a presentation's token was not looked at.
---
 crates/w3c-vc/src/proof.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/w3c-vc/src/proof.rs b/crates/w3c-vc/src/proof.rs
index 7d36359..d3118fd 100644
--- a/crates/w3c-vc/src/proof.rs
+++ b/crates/w3c-vc/src/proof.rs
@@ -33,6 +33,7 @@ pub mod integrity;
 mod jose;
 
 use anyhow::bail;
+use chrono::Utc;
 use serde::{Deserialize, Serialize};
 use vercre_core::{Kind, Quota};
 use vercre_did::DidResolver;
@@ -166,6 +167,9 @@ pub async fn verify(proof: Verify<'_>, resolver: &impl DidResolver) -> anyhow::R
                     if holder.is_some_and(|holder| kid.split('#').next() != Some(holder)) {
                         bail!("VerifiablePresentation is not signed by its holder");
                     }
+                    if jwt.claims.exp < Utc::now().timestamp() {
+                        bail!("VerifiablePresentation has expired");
+                    }
 
                     Ok(Payload::Vp {
                         vp: jwt.claims.vp,
-- 
2.43.0


From ecc07b76b0b3a88f9b9de481d138ec3da67fbf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:01 +0000
Subject: [PATCH 40/40] fix: write the request object of a request object
 response once

The object form was serialized with an extra request_object level, which
its own deserializer does not read.
---
 crates/openid/src/verifier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/openid/src/verifier.rs b/crates/openid/src/verifier.rs
index ef5a885..bbe22d0 100644
--- a/crates/openid/src/verifier.rs
+++ b/crates/openid/src/verifier.rs
@@ -440,9 +440,9 @@ impl Serialize for RequestObjectResponse {
         S: Serializer,
     {
         match &self.request_object {
-            RequestObjectType::Object(_) => {
+            RequestObjectType::Object(request_object) => {
                 let mut map = serializer.serialize_map(Some(1))?;
-                map.serialize_entry("request_object", &self.request_object)?;
+                map.serialize_entry("request_object", request_object)?;
                 map.end()
             }
             RequestObjectType::Jwt(jwt) => jwt.serialize(serializer),
-- 
2.43.0

