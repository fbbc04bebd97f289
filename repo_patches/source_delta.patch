From 54c300ab385752cf604b3d157a29a104301d0c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 1/4] fix: round swap returns down so that the pool's product
 never decreases

The gross return was computed as R_B minus K/(R_A+A) with the quotient cut
to 18 decimals; once R_A+A exceeds 10^18 the cut can lose a non-zero
remainder and the trader is paid one unit too much (before the fee), which
shrinks K when the return is below 334 units. Compute A*R_B/(R_A+A) instead.
---
 contracts/halo-pair/src/contract.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index dfa45cb..dbff5a3 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -608,13 +608,9 @@ fn compute_swap(
     // hoanm: EQUATION - B = (R_B - \frac{K}{R_A + A}) * (1 - F)
     // ask_amount = (ask_pool - cp / (offer_pool + offer_amount)) * (1 - commission_rate)
 
-    // cp (constant product) is K  in the EQUATION
-    let cp: Uint256 = offer_pool * ask_pool;
-
-    // calculate the ask_amount without commission
-    let return_amount: Uint256 = (Decimal256::from_uint256(ask_pool)
-        - Decimal256::from_ratio(cp, offer_pool + offer_amount))
-        * Uint256::one();
+    // calculate the ask_amount without commission, rounded down so that K never decreases
+    // R_B - \frac{K}{R_A + A} == \frac{A * R_B}{R_A + A}
+    let return_amount: Uint256 = offer_amount.multiply_ratio(ask_pool, offer_pool + offer_amount);
 
     // calculate the spread_amount
     // hoanm: EQUATION - SPREAD = (A * \frac{R_B}{R_A}) - B
-- 
2.43.0


From 2a5b712d886242e1b178657a67501aa319a5855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 2/4] fix: do not abort swaps whose return is above the rounded
 ideal amount

R_B/R_A is cut to 18 decimals, which makes A*R_B/R_A smaller than the
return for swaps against large, uneven reserves; the subtraction panics and
swaps and quotes that should work abort. The spread is then zero, as the
reverse simulation has it already.
---
 contracts/halo-pair/src/contract.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index dbff5a3..40ce96b 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -614,8 +614,14 @@ fn compute_swap(
 
     // calculate the spread_amount
     // hoanm: EQUATION - SPREAD = (A * \frac{R_B}{R_A}) - B
-    let spread_amount: Uint256 =
-        (offer_amount * Decimal256::from_ratio(ask_pool, offer_pool)) - return_amount;
+    let ideal_amount: Uint256 = offer_amount * Decimal256::from_ratio(ask_pool, offer_pool);
+
+    // the price is rounded down, so that the return can be above the ideal amount
+    let spread_amount: Uint256 = if ideal_amount > return_amount {
+        ideal_amount - return_amount
+    } else {
+        Uint256::zero()
+    };
 
     // calculate the commission_amount
     let commission_amount: Uint256 = return_amount * commission_rate;
-- 
2.43.0


From 9f1fd922c25d126f762632e47f71e2f12e74e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 3/4] fix: do not overflow on the first deposit of 18-decimals
 assets

The product of the two deposits was computed in 128 bits, so that a first
deposit of, say, 20 tokens each of two assets with 18 decimals aborts.
---
 contracts/halo-pair/src/contract.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index 40ce96b..adcdead 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -6,7 +6,8 @@ use cosmwasm_std::entry_point;
 
 use cosmwasm_std::{
     from_binary, to_binary, Addr, Binary, CanonicalAddr, Coin, CosmosMsg, Decimal, Deps, DepsMut,
-    Env, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128, WasmMsg,
+    Env, Isqrt, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128,
+    WasmMsg,
 };
 
 use bignumber::{Decimal256, Uint256};
@@ -20,7 +21,6 @@ use haloswap::pair::{
 };
 use haloswap::querier::query_token_info;
 use haloswap::token::InstantiateMsg as TokenInstantiateMsg;
-use integer_sqrt::IntegerSquareRoot;
 use std::cmp::Ordering;
 use std::str::FromStr;
 
@@ -294,7 +294,7 @@ pub fn provide_liquidity(
 
         // if the total supply of the LP token is zero, Initial share = collateral amount
         // hoanm: EQUATION - LP = \sqrt{A * B}
-        Uint128::from((deposits[0].u128() * deposits[1].u128()).integer_sqrt())
+        Uint128::try_from(deposits[0].full_mul(deposits[1]).isqrt()).map_err(StdError::from)?
     } else {
         // hoanm: update these equations by using the formula of Uniswap V2
         // min(1, 2)
-- 
2.43.0


From 898402a4971e4f3b1ff08d52a6f5a804c50d0e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:20 +0000
Subject: [PATCH 4/4] fix: the router tells a native coin from a token called
 like it when it checks a route's output

---
 contracts/halo-router/src/contract.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/contracts/halo-router/src/contract.rs b/contracts/halo-router/src/contract.rs
index 3e430d2..bbfafc1 100644
--- a/contracts/halo-router/src/contract.rs
+++ b/contracts/halo-router/src/contract.rs
@@ -18,7 +18,6 @@ use haloswap::router::{
     ConfigResponse, Cw20HookMsg, ExecuteMsg, InstantiateMsg, MigrateMsg, QueryMsg,
     SimulateSwapOperationsResponse, SwapOperation,
 };
-use std::collections::HashMap;
 
 // version info for migration info
 const CONTRACT_NAME: &str = "crates.io:halo-router";
@@ -334,7 +333,8 @@ fn reverse_simulate_return_amount(
 }
 
 fn assert_operations(operations: &[SwapOperation]) -> StdResult<()> {
-    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();
+    // a native coin is not the token whose address it is called like, so the names alone do not tell
+    let mut ask_assets: Vec<AssetInfo> = vec![];
     for operation in operations.iter() {
         let (offer_asset, ask_asset) = match operation {
             SwapOperation::HaloSwap {
@@ -343,11 +343,11 @@ fn assert_operations(operations: &[SwapOperation]) -> StdResult<()> {
             } => (offer_asset_info.clone(), ask_asset_info.clone()),
         };
 
-        ask_asset_map.remove(&offer_asset.to_string());
-        ask_asset_map.insert(ask_asset.to_string(), true);
+        ask_assets.retain(|asset| *asset != offer_asset && *asset != ask_asset);
+        ask_assets.push(ask_asset);
     }
 
-    if ask_asset_map.keys().len() != 1 {
+    if ask_assets.len() != 1 {
         return Err(StdError::generic_err(
             "invalid operations; multiple output token",
         ));
-- 
2.43.0

