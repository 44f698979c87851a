From ce79a1ab1a6613dff6a54e640551d614592ddbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:17 +0000
Subject: [PATCH 01/11] hook: pass ticks to simulate_swap natively under --cfg
 oraiswap_sim

---
 wasm/swap.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/wasm/swap.rs b/wasm/swap.rs
index 222ee50..b2f4d11 100644
--- a/wasm/swap.rs
+++ b/wasm/swap.rs
@@ -7,6 +7,7 @@ use crate::{
 };
 use crate::{LiquidityTick, Pool};
 use decimal::Decimal;
+#[cfg(not(oraiswap_sim))]
 use serde_wasm_bindgen::from_value;
 use traceable_result::TrackableResult;
 use traceable_result::*;
@@ -14,6 +15,12 @@ use wasm_bindgen::prelude::*;
 
 type LiquidityTicks = Vec<LiquidityTick>;
 
+// Native builds have no JavaScript values: under `--cfg oraiswap_sim` the ticks are handed over here.
+#[cfg(oraiswap_sim)]
+thread_local! {
+    pub static SIM_TICKS: std::cell::RefCell<LiquidityTicks> = Default::default();
+}
+
 #[wasm_bindgen(js_name = simulateSwap)]
 #[allow(non_snake_case)]
 pub fn simulate_swap(
@@ -26,7 +33,13 @@ pub fn simulate_swap(
     by_amount_in: bool,
     sqrt_price_limit: SqrtPrice,
 ) -> TrackableResult<CalculateSwapResult> {
+    #[cfg(not(oraiswap_sim))]
     let ticks: LiquidityTicks = from_value(ticks).unwrap();
+    #[cfg(oraiswap_sim)]
+    let ticks: LiquidityTicks = {
+        drop(ticks);
+        SIM_TICKS.with(|sim_ticks| sim_ticks.borrow().clone())
+    };
     if amount.is_zero() {
         return Err(err!("Amount is zero"));
     }
-- 
2.43.0


From bd218c4012aa914be27ca48716224d33d8195e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:12 +0000
Subject: [PATCH 02/11] fix: burning by an approved spender or operator closes
 the owner's position and pays the owner

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index 93222dc..acad6b8 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -768,8 +768,15 @@ pub fn handle_burn(
     let index = u32::from_be_bytes(token_id[token_id.len() - 4..].try_into().unwrap());
     check_can_send(deps.as_ref(), &env, &info, owner_raw, &pos)?;
 
+    // the sender may be an approved spender or an operator: the position to remove and
+    // the tokens to pay out always belong to the owner
+    let owner_info = MessageInfo {
+        sender: Addr::unchecked(String::from_utf8(owner_raw.to_vec())?),
+        funds: info.funds,
+    };
+
     // remain action to help sync backend
-    remove_position(deps, env, info.clone(), index)
+    remove_position(deps, env, owner_info, index)
 }
 
 pub fn handle_send_nft(
-- 
2.43.0


From 1671486f3ddca007d6485834d2472827cb86096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:07 +0000
Subject: [PATCH 03/11] fix: spend attached coins once per call and return
 every unspent coin exactly once

---
 .../oraiswap-v3/src/entrypoints/common.rs     |  8 +--
 .../oraiswap-v3/src/entrypoints/execute.rs    | 19 ++++---
 contracts/oraiswap-v3/src/interface.rs        | 50 +++++++++----------
 3 files changed, 41 insertions(+), 36 deletions(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/common.rs b/contracts/oraiswap-v3/src/entrypoints/common.rs
index 3edce64..712d9e6 100644
--- a/contracts/oraiswap-v3/src/entrypoints/common.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/common.rs
@@ -187,7 +187,7 @@ pub fn calculate_swap(
 pub fn swap_internal(
     store: &mut dyn Storage,
     api: &dyn Api,
-    info: &MessageInfo,
+    info: &mut MessageInfo,
     msgs: &mut Vec<CosmosMsg>,
     contract_address: &Addr,
     current_timestamp: u64,
@@ -229,8 +229,8 @@ pub fn swap_internal(
         amount: calculate_swap_result.amount_out.into(),
     };
 
-    asset_0.transfer_from(msgs, &info, contract_address.to_string())?;
-    asset_1.transfer(msgs, &info)?;
+    asset_0.transfer_from(msgs, info, contract_address.to_string())?;
+    asset_1.transfer(msgs, info)?;
 
     Ok(calculate_swap_result)
 }
@@ -239,7 +239,7 @@ pub fn swap_route_internal(
     store: &mut dyn Storage,
     api: &dyn Api,
     env: Env,
-    info: &MessageInfo,
+    info: &mut MessageInfo,
     msgs: &mut Vec<CosmosMsg>,
     amount_in: TokenAmount,
     swaps: Vec<SwapHop>,
diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index acad6b8..e46d4b3 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -159,7 +159,7 @@ pub fn change_fee_receiver(
 pub fn create_position(
     deps: DepsMut,
     env: Env,
-    info: MessageInfo,
+    mut info: MessageInfo,
     pool_key: PoolKey,
     lower_tick: i32,
     upper_tick: i32,
@@ -224,8 +224,9 @@ pub fn create_position(
     };
 
     let mut msgs = vec![];
-    asset_0.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;
-    asset_1.transfer_from(&mut msgs, &info, env.contract.address.to_string())?;
+    asset_0.transfer_from(&mut msgs, &mut info, env.contract.address.to_string())?;
+    asset_1.transfer_from(&mut msgs, &mut info, env.contract.address.to_string())?;
+    Asset::refund_unspent(&mut msgs, &info);
 
     let event_attributes = vec![
         attr("action", "create_position"),
@@ -265,7 +266,7 @@ pub fn create_position(
 pub fn swap(
     deps: DepsMut,
     env: Env,
-    info: MessageInfo,
+    mut info: MessageInfo,
     pool_key: PoolKey,
     x_to_y: bool,
     amount: TokenAmount,
@@ -281,7 +282,7 @@ pub fn swap(
     } = swap_internal(
         deps.storage,
         deps.api,
-        &info,
+        &mut info,
         &mut msgs,
         &env.contract.address,
         env.block.time.millis(),
@@ -292,6 +293,8 @@ pub fn swap(
         sqrt_price_limit,
     )?;
 
+    Asset::refund_unspent(&mut msgs, &info);
+
     Ok(Response::new()
         .add_messages(msgs)
         .add_attribute("action", "swap")
@@ -322,7 +325,7 @@ pub fn swap(
 pub fn swap_route(
     deps: DepsMut,
     env: Env,
-    info: MessageInfo,
+    mut info: MessageInfo,
     amount_in: TokenAmount,
     expected_amount_out: TokenAmount,
     slippage: Percentage,
@@ -333,7 +336,7 @@ pub fn swap_route(
         deps.storage,
         deps.api,
         env,
-        &info,
+        &mut info,
         &mut msgs,
         amount_in,
         swaps,
@@ -345,6 +348,8 @@ pub fn swap_route(
         return Err(ContractError::AmountUnderMinimumAmountOut);
     }
 
+    Asset::refund_unspent(&mut msgs, &info);
+
     Ok(Response::new()
         .add_messages(msgs)
         .add_attribute("action", "swap_route")
diff --git a/contracts/oraiswap-v3/src/interface.rs b/contracts/oraiswap-v3/src/interface.rs
index 4f4f8bd..505ee81 100644
--- a/contracts/oraiswap-v3/src/interface.rs
+++ b/contracts/oraiswap-v3/src/interface.rs
@@ -92,7 +92,7 @@ impl Asset {
     pub fn transfer_from(
         &self,
         msgs: &mut Vec<CosmosMsg>,
-        info: &MessageInfo,
+        info: &mut MessageInfo,
         recipient: String,
     ) -> Result<(), ContractError> {
         if !self.amount.is_zero() {
@@ -112,30 +112,10 @@ impl Asset {
                     );
                 }
                 AssetInfo::NativeToken { denom } => {
-                    match info.funds.iter().find(|x| x.denom.eq(denom)) {
-                        Some(coin) => {
-                            if coin.amount >= self.amount {
-                                let refund_amount = coin.amount - self.amount;
-                                // refund for user
-                                if !refund_amount.is_zero() {
-                                    msgs.push(
-                                        BankMsg::Send {
-                                            to_address: info.sender.to_string(),
-                                            amount: vec![Coin {
-                                                amount: refund_amount,
-                                                denom: denom.to_string(),
-                                            }],
-                                        }
-                                        .into(),
-                                    )
-                                }
-                            } else {
-                                return Err(ContractError::InvalidFunds {
-                                    transfer_amount: self.amount,
-                                });
-                            }
-                        }
-                        None => {
+                    // spend the attached coin, so that it cannot be used twice in a call
+                    match info.funds.iter_mut().find(|x| x.denom.eq(denom)) {
+                        Some(coin) if coin.amount >= self.amount => coin.amount -= self.amount,
+                        _ => {
                             return Err(ContractError::InvalidFunds {
                                 transfer_amount: self.amount,
                             });
@@ -147,6 +127,26 @@ impl Asset {
 
         Ok(())
     }
+
+    /// Returns the attached coins that have not been spent by `transfer_from` to the sender.
+    pub fn refund_unspent(msgs: &mut Vec<CosmosMsg>, info: &MessageInfo) {
+        let amount: Vec<Coin> = info
+            .funds
+            .iter()
+            .filter(|coin| !coin.amount.is_zero())
+            .cloned()
+            .collect();
+
+        if !amount.is_empty() {
+            msgs.push(
+                BankMsg::Send {
+                    to_address: info.sender.to_string(),
+                    amount,
+                }
+                .into(),
+            );
+        }
+    }
 }
 
 #[cw_serde]
-- 
2.43.0


From 76f4a5d49d6fcfeb017200fd114ab84564c43dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:18 +0000
Subject: [PATCH 04/11] fix: counting ticks over a range that covers a whole
 tick map chunk no longer overflows

---
 contracts/oraiswap-v3/src/entrypoints/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/oraiswap-v3/src/entrypoints/query.rs b/contracts/oraiswap-v3/src/entrypoints/query.rs
index 83f81b9..4c2f841 100644
--- a/contracts/oraiswap-v3/src/entrypoints/query.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/query.rs
@@ -308,7 +308,7 @@ pub fn get_liquidity_ticks_amount(
     let (max_chunk_index, max_bit) = tick_to_position(upper_tick, tick_spacing);
 
     let active_bits_in_range = |chunk, min_bit, max_bit| {
-        let range: u64 = (chunk >> min_bit) & ((1u64 << (max_bit - min_bit + 1)) - 1);
+        let range: u64 = (chunk >> min_bit) & (u64::MAX >> (63 - (max_bit - min_bit)));
         range.count_ones()
     };
 
-- 
2.43.0


From ab69185df6493a00cac8f4e5191fd95b9615b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:08 +0000
Subject: [PATCH 05/11] fix: refuse to add a fee tier that is already listed

---
 contracts/oraiswap-v3/src/entrypoints/execute.rs | 4 ++++
 contracts/oraiswap-v3/src/error.rs               | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/contracts/oraiswap-v3/src/entrypoints/execute.rs b/contracts/oraiswap-v3/src/entrypoints/execute.rs
index e46d4b3..0ed6b4a 100644
--- a/contracts/oraiswap-v3/src/entrypoints/execute.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/execute.rs
@@ -630,6 +630,10 @@ pub fn add_fee_tier(
         return Err(ContractError::InvalidFee);
     }
 
+    if config.fee_tiers.contains(&fee_tier) {
+        return Err(ContractError::FeeTierAlreadyExist);
+    }
+
     config.fee_tiers.push(fee_tier);
 
     CONFIG.save(deps.storage, &config)?;
diff --git a/contracts/oraiswap-v3/src/error.rs b/contracts/oraiswap-v3/src/error.rs
index 80742a3..792a9ea 100644
--- a/contracts/oraiswap-v3/src/error.rs
+++ b/contracts/oraiswap-v3/src/error.rs
@@ -191,6 +191,9 @@ pub enum ContractError {
     #[error("FeeTierNotFound")]
     FeeTierNotFound,
 
+    #[error("fee tier already exist")]
+    FeeTierAlreadyExist,
+
     #[error("NotEmptyTickDeinitialization")]
     NotEmptyTickDeinitialization,
 }
-- 
2.43.0


From c51d7672de96f7afdeeb739392b7fa985ee0ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:38 +0000
Subject: [PATCH 06/11] fix: cross an initialized tick when an upward swap ends
 on it at the price limit

---
 contracts/oraiswap-v3/src/state.rs | 3 ++-
 wasm/collections/tickmap.rs        | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index aa4294c..621fa64 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -382,7 +382,8 @@ pub fn get_closer_limit(
     };
 
     let sqrt_price = calculate_sqrt_price(index)?;
-    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price < sqrt_price_limit) {
+    // a tick belongs to the range above it, so it has to be crossed when an upward swap ends on it
+    if (x_to_y && sqrt_price > sqrt_price_limit) || (!x_to_y && sqrt_price <= sqrt_price_limit) {
         Ok((sqrt_price, Some((index, is_initialized))))
     } else {
         Ok((sqrt_price_limit, None))
diff --git a/wasm/collections/tickmap.rs b/wasm/collections/tickmap.rs
index 80cd654..5e690c5 100644
--- a/wasm/collections/tickmap.rs
+++ b/wasm/collections/tickmap.rs
@@ -230,7 +230,7 @@ impl Tickmap {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
@@ -246,7 +246,7 @@ impl Tickmap {
                 }
 
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, false))))
                 } else {
-- 
2.43.0


From c9f11883f2125092cc58cd1696e3b3ed63a7a3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:18 +0000
Subject: [PATCH 07/11] fix: a swap larger than one tick range's liquidity can
 take or give crosses the tick instead of failing

---
 contracts/oraiswap-v3/src/storage/pool.rs | 5 ++++-
 wasm/storage/pool.rs                      | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/contracts/oraiswap-v3/src/storage/pool.rs b/contracts/oraiswap-v3/src/storage/pool.rs
index 0640cf1..7763c25 100644
--- a/contracts/oraiswap-v3/src/storage/pool.rs
+++ b/contracts/oraiswap-v3/src/storage/pool.rs
@@ -152,7 +152,10 @@ impl Pool {
             fee_tier.fee,
             by_amount_in,
             x_to_y,
-        )?;
+        )
+        // no price can be computed when the remaining amount exceeds what this liquidity can take
+        // or give at all, which is more than enough to leave the tick
+        .unwrap_or(true);
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
diff --git a/wasm/storage/pool.rs b/wasm/storage/pool.rs
index 65c21f7..78ef35c 100644
--- a/wasm/storage/pool.rs
+++ b/wasm/storage/pool.rs
@@ -94,14 +94,17 @@ impl Pool {
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
-        let is_enough_amount_to_cross = unwrap!(is_enough_amount_to_change_price(
+        let is_enough_amount_to_cross = is_enough_amount_to_change_price(
             remaining_amount,
             result.next_sqrt_price,
             self.liquidity,
             fee_tier.fee,
             by_amount_in,
             x_to_y,
-        ));
+        )
+        // no price can be computed when the remaining amount exceeds what this liquidity can take
+        // or give at all, which is more than enough to leave the tick
+        .unwrap_or(true);
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
-- 
2.43.0


From 505188abf5c45e79a526dedeae823a68a7ad1e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:41 +0000
Subject: [PATCH 08/11] fix: a route quote takes earlier hops through the same
 pool into account

---
 .../oraiswap-v3/src/entrypoints/common.rs     | 35 ++++++++---
 contracts/oraiswap-v3/src/entrypoints/mod.rs  |  1 +
 .../oraiswap-v3/src/entrypoints/overlay.rs    | 62 +++++++++++++++++++
 3 files changed, 89 insertions(+), 9 deletions(-)
 create mode 100644 contracts/oraiswap-v3/src/entrypoints/overlay.rs

diff --git a/contracts/oraiswap-v3/src/entrypoints/common.rs b/contracts/oraiswap-v3/src/entrypoints/common.rs
index 712d9e6..4c068ec 100644
--- a/contracts/oraiswap-v3/src/entrypoints/common.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/common.rs
@@ -5,6 +5,8 @@ use cosmwasm_std::{
 use cw20::Expiration;
 use decimal::{CheckedOps, Decimal};
 
+use super::overlay::OverlayStorage;
+
 use crate::{
     check_tick, compute_swap_step,
     interface::{Approval, Asset, AssetInfo, CalculateSwapResult, SwapHop},
@@ -183,6 +185,20 @@ pub fn calculate_swap(
     })
 }
 
+fn update_swap_state(
+    store: &mut dyn Storage,
+    pool_key: &PoolKey,
+    calculate_swap_result: &CalculateSwapResult,
+) -> Result<(), ContractError> {
+    for tick in &calculate_swap_result.ticks {
+        state::update_tick(store, pool_key, tick.index, tick)?;
+    }
+
+    POOLS.save(store, &pool_key.key(), &calculate_swap_result.pool)?;
+
+    Ok(())
+}
+
 #[allow(clippy::too_many_arguments)]
 pub fn swap_internal(
     store: &mut dyn Storage,
@@ -207,11 +223,7 @@ pub fn swap_internal(
         sqrt_price_limit,
     )?;
 
-    for tick in &calculate_swap_result.ticks {
-        state::update_tick(store, pool_key, tick.index, tick)?;
-    }
-
-    POOLS.save(store, &pool_key.key(), &calculate_swap_result.pool)?;
+    update_swap_state(store, pool_key, &calculate_swap_result)?;
 
     let (token_0, token_1) = if x_to_y {
         (&pool_key.token_x, &pool_key.token_y)
@@ -280,6 +292,7 @@ pub fn route(
     amount_in: TokenAmount,
     swaps: Vec<SwapHop>,
 ) -> Result<TokenAmount, ContractError> {
+    let mut store = OverlayStorage::new(store);
     let mut next_swap_amount = amount_in;
 
     let current_timestamp = env.block.time.millis();
@@ -291,16 +304,20 @@ pub fn route(
             SqrtPrice::new(MAX_SQRT_PRICE)
         };
 
-        next_swap_amount = calculate_swap(
-            store,
+        let calculate_swap_result = calculate_swap(
+            &store,
             current_timestamp,
             &swap_hop.pool_key,
             swap_hop.x_to_y,
             next_swap_amount,
             true,
             sqrt_price_limit,
-        )?
-        .amount_out;
+        )?;
+
+        // a later hop may visit the same pool again
+        update_swap_state(&mut store, &swap_hop.pool_key, &calculate_swap_result)?;
+
+        next_swap_amount = calculate_swap_result.amount_out;
     }
 
     Ok(next_swap_amount)
diff --git a/contracts/oraiswap-v3/src/entrypoints/mod.rs b/contracts/oraiswap-v3/src/entrypoints/mod.rs
index 2d61618..d368051 100644
--- a/contracts/oraiswap-v3/src/entrypoints/mod.rs
+++ b/contracts/oraiswap-v3/src/entrypoints/mod.rs
@@ -1,5 +1,6 @@
 mod common;
 mod execute;
+mod overlay;
 mod query;
 
 pub use common::*;
diff --git a/contracts/oraiswap-v3/src/entrypoints/overlay.rs b/contracts/oraiswap-v3/src/entrypoints/overlay.rs
new file mode 100644
index 0000000..1ab0412
--- /dev/null
+++ b/contracts/oraiswap-v3/src/entrypoints/overlay.rs
@@ -0,0 +1,62 @@
+use std::collections::BTreeMap;
+
+use cosmwasm_std::{Order, Record, Storage};
+
+/// Keeps writes to itself, so that a query can work on the state that a call would leave behind.
+pub struct OverlayStorage<'a> {
+    base: &'a dyn Storage,
+    local: BTreeMap<Vec<u8>, Option<Vec<u8>>>,
+}
+
+impl<'a> OverlayStorage<'a> {
+    pub fn new(base: &'a dyn Storage) -> Self {
+        Self {
+            base,
+            local: BTreeMap::new(),
+        }
+    }
+}
+
+impl<'a> Storage for OverlayStorage<'a> {
+    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
+        match self.local.get(key) {
+            Some(value) => value.clone(),
+            None => self.base.get(key),
+        }
+    }
+
+    fn range<'b>(
+        &'b self,
+        start: Option<&[u8]>,
+        end: Option<&[u8]>,
+        order: Order,
+    ) -> Box<dyn Iterator<Item = Record> + 'b> {
+        let mut records: BTreeMap<Vec<u8>, Vec<u8>> =
+            self.base.range(start, end, Order::Ascending).collect();
+
+        for (key, value) in &self.local {
+            if start.map_or(false, |start| key.as_slice() < start)
+                || end.map_or(false, |end| key.as_slice() >= end)
+            {
+                continue;
+            }
+            match value {
+                Some(value) => records.insert(key.clone(), value.clone()),
+                None => records.remove(key),
+            };
+        }
+
+        match order {
+            Order::Ascending => Box::new(records.into_iter()),
+            Order::Descending => Box::new(records.into_iter().rev()),
+        }
+    }
+
+    fn set(&mut self, key: &[u8], value: &[u8]) {
+        self.local.insert(key.to_vec(), Some(value.to_vec()));
+    }
+
+    fn remove(&mut self, key: &[u8]) {
+        self.local.insert(key.to_vec(), None);
+    }
+}
-- 
2.43.0


From e5bcedda56080726b1a06e04cdbb0a1bb773e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:09 +0000
Subject: [PATCH 09/11] fix: a swap step at very low prices neither passes its
 target price nor needs more than the given input

---
 contracts/oraiswap-v3/src/math/clamm.rs | 16 +++++++++++++---
 wasm/clamm.rs                           | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/contracts/oraiswap-v3/src/math/clamm.rs b/contracts/oraiswap-v3/src/math/clamm.rs
index 2b90b35..6aca28d 100644
--- a/contracts/oraiswap-v3/src/math/clamm.rs
+++ b/contracts/oraiswap-v3/src/math/clamm.rs
@@ -31,12 +31,12 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
 
-    if by_amount_in {
-        let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
+    let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
 
+    if by_amount_in {
         amount_in = (if x_to_y {
             get_delta_x(target_sqrt_price, current_sqrt_price, liquidity, true)
         } else {
@@ -52,6 +52,11 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             )?;
+
+            // amount_in has been rounded up, a bit less may be enough to hit the target as well
+            if x_to_y && next_sqrt_price <= target_sqrt_price {
+                next_sqrt_price = target_sqrt_price;
+            }
         };
     } else {
         amount_out = (if x_to_y {
@@ -86,6 +91,11 @@ pub fn compute_swap_step(
         };
     }
 
+    // Amount in can not exceed amount
+    if by_amount_in && amount_in > amount_after_fee {
+        amount_in = amount_after_fee;
+    }
+
     // Amount out can not exceed amount
     if !by_amount_in && amount_out > amount {
         amount_out = amount;
diff --git a/wasm/clamm.rs b/wasm/clamm.rs
index 034db07..f31934a 100644
--- a/wasm/clamm.rs
+++ b/wasm/clamm.rs
@@ -43,12 +43,12 @@ pub fn compute_swap_step(
     }
 
     let x_to_y = current_sqrt_price >= target_sqrt_price;
-    let next_sqrt_price: SqrtPrice;
+    let mut next_sqrt_price: SqrtPrice;
     let (mut amount_in, mut amount_out) = (TokenAmount(0), TokenAmount(0));
 
-    if by_amount_in {
-        let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
+    let amount_after_fee = amount.big_mul(Percentage::from_integer(1u8) - fee);
 
+    if by_amount_in {
         amount_in = ok_or_mark_trace!(if x_to_y {
             get_delta_x(target_sqrt_price, current_sqrt_price, liquidity, true)
         } else {
@@ -64,6 +64,11 @@ pub fn compute_swap_step(
                 amount_after_fee,
                 x_to_y,
             ))?;
+
+            // amount_in has been rounded up, a bit less may be enough to hit the target as well
+            if x_to_y && next_sqrt_price <= target_sqrt_price {
+                next_sqrt_price = target_sqrt_price;
+            }
         };
     } else {
         amount_out = ok_or_mark_trace!(if x_to_y {
@@ -122,6 +127,11 @@ pub fn compute_swap_step(
         };
     }
 
+    // Amount in can not exceed amount
+    if by_amount_in && amount_in > amount_after_fee {
+        amount_in = amount_after_fee;
+    }
+
     // Amount out can not exceed amount
     if !by_amount_in && amount_out > amount {
         amount_out = amount;
-- 
2.43.0


From 01b8df365c73490141d2b25fe46f2e149cc54d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:58 +0000
Subject: [PATCH 10/11] fix: a price that stays on a tick just crossed downward
 keeps the tick index below it

---
 contracts/oraiswap-v3/src/storage/pool.rs | 8 +++++++-
 wasm/storage/pool.rs                      | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/storage/pool.rs b/contracts/oraiswap-v3/src/storage/pool.rs
index 7763c25..cf53681 100644
--- a/contracts/oraiswap-v3/src/storage/pool.rs
+++ b/contracts/oraiswap-v3/src/storage/pool.rs
@@ -139,8 +139,14 @@ impl Pool {
         let mut total_amount = TokenAmount(0);
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index =
+            let tick_index =
                 get_tick_at_sqrt_price(result.next_sqrt_price, fee_tier.tick_spacing)?;
+            // a price still on the tick that was just crossed downward belongs to the range below it
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
 
             return Ok((total_amount, remaining_amount, has_crossed));
         };
diff --git a/wasm/storage/pool.rs b/wasm/storage/pool.rs
index 78ef35c..cfac544 100644
--- a/wasm/storage/pool.rs
+++ b/wasm/storage/pool.rs
@@ -86,10 +86,16 @@ impl Pool {
         let mut total_amount = TokenAmount(0);
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing as u16
             ));
+            // a price still on the tick that was just crossed downward belongs to the range below it
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
 
             return Ok((total_amount, remaining_amount, has_crossed));
         };
-- 
2.43.0


From 773ab1aa0e41b30bad903f37fbd74fade321cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:26 +0000
Subject: [PATCH 11/11] fix: listing an owner's positions from an offset with a
 large limit panics

The end of the page was computed as offset + limit in u32, which overflows
(and aborts the query) when a client asks for everything from some offset on.
---
 contracts/oraiswap-v3/src/state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/oraiswap-v3/src/state.rs b/contracts/oraiswap-v3/src/state.rs
index 621fa64..c4aa012 100644
--- a/contracts/oraiswap-v3/src/state.rs
+++ b/contracts/oraiswap-v3/src/state.rs
@@ -214,7 +214,8 @@ pub fn get_all_positions(
 ) -> Result<Vec<Position>, ContractError> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id)
+        .min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| get_position(store, account_id, index))
         .collect()
@@ -228,7 +229,8 @@ pub fn get_all_position_keys(
 ) -> Vec<Vec<u8>> {
     let from_idx = offset.unwrap_or(0);
     // maximum 100 items
-    let to_idx = get_position_length(store, account_id).min(from_idx + limit.unwrap_or(MAX_LIMIT));
+    let to_idx = get_position_length(store, account_id)
+        .min(from_idx.saturating_add(limit.unwrap_or(MAX_LIMIT)));
     (from_idx..to_idx)
         .map(|index| position_key(account_id, index))
         .collect()
-- 
2.43.0

