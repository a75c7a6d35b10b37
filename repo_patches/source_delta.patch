From 2762ab949a499d4381141788ec84d9047d1e1e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 1/6] fix: aggregate ism: validate the threshold at
 instantiation as SetIsms does

---
 contracts/isms/aggregate/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/contracts/isms/aggregate/src/lib.rs b/contracts/isms/aggregate/src/lib.rs
index 0d39848..a30be98 100644
--- a/contracts/isms/aggregate/src/lib.rs
+++ b/contracts/isms/aggregate/src/lib.rs
@@ -42,6 +42,15 @@ pub fn instantiate(
 ) -> Result<Response, ContractError> {
     set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
 
+    ensure!(
+        msg.threshold > 0,
+        ContractError::InvalidThreshold("threshold must not be zero".to_string())
+    );
+    ensure!(
+        msg.isms.len() >= msg.threshold as usize,
+        ContractError::InvalidThreshold("threshold should be less than ism count".to_string())
+    );
+
     let owner = deps.api.addr_validate(&msg.owner)?;
     let isms = msg
         .isms
-- 
2.43.0


From fdaa571de0d8c33bbd33090fd3ceddebb145da9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 2/6] fix: routing ism: wrap the VerifyInfo query to the routed
 ism and decode its answer

---
 contracts/isms/routing/src/contract.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/isms/routing/src/contract.rs b/contracts/isms/routing/src/contract.rs
index bba8f9a..e0b4d41 100644
--- a/contracts/isms/routing/src/contract.rs
+++ b/contracts/isms/routing/src/contract.rs
@@ -7,7 +7,7 @@ use cw2::set_contract_version;
 use hpl_interface::{
     ism::{
         routing::{ExecuteMsg, InstantiateMsg, QueryMsg, RouteResponse, RoutingIsmQueryMsg},
-        IsmQueryMsg, ModuleTypeResponse, VerifyResponse,
+        IsmQueryMsg, ModuleTypeResponse, VerifyInfoResponse, VerifyResponse,
     },
     types::Message,
 };
@@ -129,11 +129,11 @@ pub fn query(deps: Deps, env: Env, msg: QueryMsg) -> Result<QueryResponse, Contr
                     .may_load(deps.storage, decoded.origin_domain)?
                     .ok_or(ContractError::RouteNotFound {})?;
 
-                let verify_resp: VerifyResponse = deps
+                let verify_info_resp: VerifyInfoResponse = deps
                     .querier
-                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message })?;
+                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message }.wrap())?;
 
-                Ok(to_json_binary(&verify_resp)?)
+                Ok(to_json_binary(&verify_info_resp)?)
             }
         },
         QueryMsg::RoutingIsm(msg) => match msg {
-- 
2.43.0


From e129d87fe137b4ae498f1e71efc0222007138ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 3/6] fix: routing hooks: forward the attached coins to the
 routed hook

---
 contracts/hooks/routing-custom/src/lib.rs   | 4 ++--
 contracts/hooks/routing-fallback/src/lib.rs | 4 ++--
 contracts/hooks/routing/src/lib.rs          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/contracts/hooks/routing-custom/src/lib.rs b/contracts/hooks/routing-custom/src/lib.rs
index 1a355a7..32aecd4 100644
--- a/contracts/hooks/routing-custom/src/lib.rs
+++ b/contracts/hooks/routing-custom/src/lib.rs
@@ -284,12 +284,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing-fallback/src/lib.rs b/contracts/hooks/routing-fallback/src/lib.rs
index 97ef08f..9e2cc2c 100644
--- a/contracts/hooks/routing-fallback/src/lib.rs
+++ b/contracts/hooks/routing-fallback/src/lib.rs
@@ -126,12 +126,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 pub fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing/src/lib.rs b/contracts/hooks/routing/src/lib.rs
index 341c90c..b485cc9 100644
--- a/contracts/hooks/routing/src/lib.rs
+++ b/contracts/hooks/routing/src/lib.rs
@@ -123,12 +123,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
-- 
2.43.0


From 67346804ceca42a19550430759b5d3db4c90532a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 4/6] fix: IGP metadata: do not panic on a refund address with
 sixteen leading zero bytes

---
 packages/interface/src/types/metadata.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/packages/interface/src/types/metadata.rs b/packages/interface/src/types/metadata.rs
index 15b56ab..6fe6a4c 100644
--- a/packages/interface/src/types/metadata.rs
+++ b/packages/interface/src/types/metadata.rs
@@ -250,18 +250,8 @@ impl IGPMetadata {
             return default;
         }
 
-        let raw_addr = match self
-            .refund_address
-            .to_vec()
-            .iter()
-            .take(16)
-            .all(|&byte| byte == 0)
-        {
-            true => self.refund_address.to_vec()[16..].to_vec(),
-            false => self.refund_address.to_vec(),
-        };
-
-        bech32_encode(hrp, &raw_addr).unwrap()
+        // a 20-byte address left-padded to 32 bytes is unpadded by `bech32_encode`
+        bech32_encode(hrp, &self.refund_address).unwrap()
     }
 }
 
-- 
2.43.0


From f82eaef8d2651f3dfd8baea6b3ea82a91df661e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 5/6] fix: igp oracle: reject a zero exchange rate in
 SetRemoteGasData

---
 contracts/igps/oracle/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/igps/oracle/src/contract.rs b/contracts/igps/oracle/src/contract.rs
index 464a76f..da39bcb 100644
--- a/contracts/igps/oracle/src/contract.rs
+++ b/contracts/igps/oracle/src/contract.rs
@@ -73,6 +73,11 @@ pub fn execute(
                 ContractError::Unauthorized {}
             );
 
+            ensure!(
+                !config.token_exchange_rate.is_zero(),
+                ContractError::invalid_config("exchange rate must be non-zero")
+            );
+
             let domain = config.remote_domain.to_string();
             insert_gas_data(deps.storage, config)?;
 
-- 
2.43.0


From 4ab9b28874146dbf3b1c8094c411619f384e1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 6/6] fix: warp: refuse a transfer whose recipient is not 32
 bytes, which would shift the encoded amount

---
 contracts/warp/cw20/src/contract.rs   | 8 ++++++--
 contracts/warp/native/src/contract.rs | 3 +++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/contracts/warp/cw20/src/contract.rs b/contracts/warp/cw20/src/contract.rs
index 503b2a2..f4c3471 100644
--- a/contracts/warp/cw20/src/contract.rs
+++ b/contracts/warp/cw20/src/contract.rs
@@ -1,8 +1,9 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    ensure_eq, to_json_binary, wasm_execute, CosmosMsg, Deps, DepsMut, Empty, Env, HexBinary,
-    MessageInfo, QueryResponse, Reply, Response, StdError, SubMsg, Uint128, Uint256, WasmMsg,
+    ensure, ensure_eq, to_json_binary, wasm_execute, CosmosMsg, Deps, DepsMut, Empty, Env,
+    HexBinary, MessageInfo, QueryResponse, Reply, Response, StdError, SubMsg, Uint128, Uint256,
+    WasmMsg,
 };
 
 use cw20::Cw20ExecuteMsg;
@@ -192,6 +193,9 @@ fn transfer_remote(
     hook: Option<String>,
     metadata: Option<HexBinary>,
 ) -> Result<Response, ContractError> {
+    // the recipient field of the warp message is exactly 32 bytes
+    ensure!(recipient.len() == 32, ContractError::WrongLength {});
+
     let token = TOKEN.load(deps.storage)?;
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
diff --git a/contracts/warp/native/src/contract.rs b/contracts/warp/native/src/contract.rs
index ef6c234..77b8ddd 100644
--- a/contracts/warp/native/src/contract.rs
+++ b/contracts/warp/native/src/contract.rs
@@ -205,6 +205,9 @@ fn transfer_remote(
     hook: Option<String>,
     metadata: Option<HexBinary>,
 ) -> Result<Response, ContractError> {
+    // the recipient field of the warp message is exactly 32 bytes
+    ensure!(recipient.len() == 32, ContractError::WrongLength);
+
     let token = TOKEN.load(deps.storage)?;
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
-- 
2.43.0

