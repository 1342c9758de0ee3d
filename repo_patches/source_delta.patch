From c2b9d4e2a53637588ebf0168472b75eb066df786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 01/23] Add state snapshot hook guarded by cfg(invariant_verif)

---
 src/contracts/collections/pool_keys.rs |  1 +
 src/contracts/collections/pools.rs     |  1 +
 src/contracts/collections/positions.rs |  1 +
 src/contracts/collections/tickmap.rs   |  1 +
 src/contracts/collections/ticks.rs     |  1 +
 src/invariant_storage.rs               |  1 +
 src/lib.rs                             | 15 +++++++++++++++
 7 files changed, 21 insertions(+)

diff --git a/src/contracts/collections/pool_keys.rs b/src/contracts/collections/pool_keys.rs
index db858e9..5756c91 100644
--- a/src/contracts/collections/pool_keys.rs
+++ b/src/contracts/collections/pool_keys.rs
@@ -2,6 +2,7 @@ use crate::{InvariantError, PoolKey};
 use sails_rs::{collections::HashMap, prelude::*};
 
 #[derive(Debug, Default)]
+#[cfg_attr(invariant_verif, derive(Clone))]
 pub struct PoolKeys {
     pool_keys: HashMap<PoolKey, u16>,
     pool_keys_by_index: HashMap<u16, PoolKey>,
diff --git a/src/contracts/collections/pools.rs b/src/contracts/collections/pools.rs
index 65e111b..d2cbb92 100644
--- a/src/contracts/collections/pools.rs
+++ b/src/contracts/collections/pools.rs
@@ -2,6 +2,7 @@ use crate::{InvariantError, Pool, PoolKey};
 use sails_rs::{collections::HashMap, prelude::*};
 
 #[derive(Debug, Default)]
+#[cfg_attr(invariant_verif, derive(Clone))]
 pub struct Pools {
     pools: HashMap<PoolKey, Pool>,
 }
diff --git a/src/contracts/collections/positions.rs b/src/contracts/collections/positions.rs
index 00cc55d..7202b58 100644
--- a/src/contracts/collections/positions.rs
+++ b/src/contracts/collections/positions.rs
@@ -2,6 +2,7 @@ use crate::{InvariantError, Position};
 use sails_rs::{collections::HashMap, prelude::*};
 
 #[derive(Debug, Default)]
+#[cfg_attr(invariant_verif, derive(Clone))]
 pub struct Positions {
     positions_length: HashMap<ActorId, u32>,
     positions: HashMap<(ActorId, u32), Position>,
diff --git a/src/contracts/collections/tickmap.rs b/src/contracts/collections/tickmap.rs
index c0cfbae..e87d24a 100644
--- a/src/contracts/collections/tickmap.rs
+++ b/src/contracts/collections/tickmap.rs
@@ -9,6 +9,7 @@ pub const TICK_SEARCH_RANGE: i32 = 256;
 pub const CHUNK_SIZE: i32 = 64;
 
 #[derive(Debug, Default)]
+#[cfg_attr(invariant_verif, derive(Clone))]
 pub struct Tickmap {
     pub bitmap: HashMap<(u16, PoolKey), u64>,
 }
diff --git a/src/contracts/collections/ticks.rs b/src/contracts/collections/ticks.rs
index 1f4c614..17c1dad 100644
--- a/src/contracts/collections/ticks.rs
+++ b/src/contracts/collections/ticks.rs
@@ -2,6 +2,7 @@ use crate::{InvariantError, PoolKey, Tick};
 use sails_rs::{collections::HashMap, prelude::*};
 
 #[derive(Debug, Default)]
+#[cfg_attr(invariant_verif, derive(Clone))]
 pub struct Ticks {
     ticks: HashMap<(PoolKey, i32), Tick>,
 }
diff --git a/src/invariant_storage.rs b/src/invariant_storage.rs
index a38a977..83d3f43 100644
--- a/src/invariant_storage.rs
+++ b/src/invariant_storage.rs
@@ -16,6 +16,7 @@ pub use sails_rs::{collections::HashMap, prelude::*};
 pub use traceable_result::*;
 
 #[derive(Debug, Default)]
+#[cfg_attr(invariant_verif, derive(Clone))]
 pub struct Invariant {
     pub config: InvariantConfig,
     pub fee_tiers: FeeTiers,
diff --git a/src/lib.rs b/src/lib.rs
index bfe9282..b964a10 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,6 +15,21 @@ pub use contracts::{
 };
 use invariant_service::InvariantService;
 
+// Whole-state snapshot and restore, for verification harnesses only.
+#[cfg(invariant_verif)]
+pub mod verif {
+    pub use crate::invariant_storage::Invariant as State;
+    use crate::invariant_storage::InvariantStorage;
+
+    pub fn snapshot() -> State {
+        InvariantStorage::as_ref().clone()
+    }
+
+    pub fn restore(state: &State) {
+        *InvariantStorage::as_mut() = state.clone();
+    }
+}
+
 pub struct InvariantProgram(());
 
 #[program]
-- 
2.43.0


From ed16b0e133140befa3df240a340bacedac78d819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 02/23] fix: keep pool tick below a crossed tick when selling x
 leaves the price on it

A swap of x for y that crosses a tick and whose leftover is too small to
move the price under the new liquidity ended with the price at the crossed
tick and current_tick_index reset to it. Pool liquidity no longer matched
the ranges covering current_tick_index, so positions in the pool were owed
more than the contract holds.
---
 sdk/src/wasm/storage/pool.rs  | 9 ++++++++-
 src/contracts/storage/pool.rs | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/sdk/src/wasm/storage/pool.rs b/sdk/src/wasm/storage/pool.rs
index d081737..2ffcac7 100644
--- a/sdk/src/wasm/storage/pool.rs
+++ b/sdk/src/wasm/storage/pool.rs
@@ -50,11 +50,18 @@ impl Pool {
         let mut total_amount = TokenAmount::new(U256::from(0));
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing as u16
             )) as i64;
 
+            // price may stay at an already crossed tick, it must not be entered again
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return Ok((total_amount, remaining_amount, has_crossed));
         };
 
diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index f8ecacf..313c498 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -156,11 +156,18 @@ impl Pool {
         let mut total_amount = TokenAmount::new(U256::from(0));
 
         if UpdatePoolTick::NoTick == *tick || swap_limit != result.next_sqrt_price {
-            self.current_tick_index = unwrap!(get_tick_at_sqrt_price(
+            let tick_index = unwrap!(get_tick_at_sqrt_price(
                 result.next_sqrt_price,
                 fee_tier.tick_spacing
             ));
 
+            // price may stay at an already crossed tick, it must not be entered again
+            self.current_tick_index = if x_to_y {
+                tick_index.min(self.current_tick_index)
+            } else {
+                tick_index
+            };
+
             return (total_amount, remaining_amount, has_crossed);
         };
 
-- 
2.43.0


From d93bf3945877290cd5537862ff91a54eb1b0e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 03/23] fix: report overflow when casting wide integers to u8,
 u16 and u32

Only the lowest limb was compared with the target's range, the higher ones
were dropped, so a value such as 2^64 + 1 was cast to 1.
---
 calc/decimal/decimal_core/src/uint_casts.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/calc/decimal/decimal_core/src/uint_casts.rs b/calc/decimal/decimal_core/src/uint_casts.rs
index 191dcf7..727a5c0 100644
--- a/calc/decimal/decimal_core/src/uint_casts.rs
+++ b/calc/decimal/decimal_core/src/uint_casts.rs
@@ -245,6 +245,13 @@ pub fn impl_primitive_casts(
     }
     // downcasts
     // downcast to u32 or below
+    let higher_chunks_overflow = if chunk_count >= 2 {
+        let overflow_chunks = overflow_chunks(1..chunk_count, param_name.clone());
+        quote! { || #overflow_chunks != 0 }
+    } else {
+        Default::default()
+    };
+
     ["u8", "u16", "u32"]
         .iter()
         .map(|v| proc_macro2::Ident::new(v, proc_macro2::Span::call_site()))
@@ -253,7 +260,7 @@ pub fn impl_primitive_casts(
             expanded.append_all(quote! {
               impl #checked_cast_trait_name <#uint> for #primitive {
                 fn #checked_cast_function_name(#param_name: #uint)-> Result<#primitive, String> {
-                  if #param_name.0[0] > #primitive::MAX as u64 {
+                  if #param_name.0[0] > #primitive::MAX as u64 #higher_chunks_overflow {
                     return Err(#down_cast_error.to_string());
                   }
 
-- 
2.43.0


From 2e4fb59e1447b6e40309f8691b192d759ae57335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 04/23] fix: return amounts used by the liquidity chosen in
 get_liquidity

The limiting token was reported with the amount computed for the other
token, which could exceed the amount given by the caller.
---
 src/contracts/logic/liquidity_result.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index 985ce59..7642d29 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -81,12 +81,12 @@ pub fn get_liquidity(
     Ok(if result_by_y.l < result_by_x.l {
         LiquidityResult {
             x: result_by_y.amount,
-            y: result_by_x.amount,
+            y,
             l: result_by_y.l,
         }
     } else {
         LiquidityResult {
-            x: result_by_y.amount,
+            x,
             y: result_by_x.amount,
             l: result_by_x.l,
         }
-- 
2.43.0


From ec960bdb81267c66fa34731b0e7d00196a0124cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 05/23] fix: count ticks of the last tickmap chunk in
 liquidity_ticks_count

---
 src/invariant_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/invariant_storage.rs b/src/invariant_storage.rs
index 83d3f43..2e0cc72 100644
--- a/src/invariant_storage.rs
+++ b/src/invariant_storage.rs
@@ -308,7 +308,7 @@ impl Invariant {
 
     pub fn liquidity_ticks_count(&self, pool_key: PoolKey) -> u32 {
         let mut sum = 0;
-        for chunk_index in 0..get_max_chunk(pool_key.fee_tier.tick_spacing) {
+        for chunk_index in 0..=get_max_chunk(pool_key.fee_tier.tick_spacing) {
             if let Some(chunk) = self.tickmap.bitmap.get(&(chunk_index, pool_key)) {
                 sum += chunk.count_ones()
             }
-- 
2.43.0


From f61ede1df17638a92594c77420389122d2acb707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 06/23] fix: refund a withdrawal whenever the token transfer
 fails

Error replies were recognised by their payload decoding as a string, which
only panics happen to do. A transfer that failed in another way, such as by
running out of gas, was never settled and the withdrawn amount was lost.
An error reply with a payload of a positive answer was taken as a success.
---
 src/invariant_service.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/invariant_service.rs b/src/invariant_service.rs
index 84828a8..6aa0b1a 100644
--- a/src/invariant_service.rs
+++ b/src/invariant_service.rs
@@ -15,7 +15,7 @@ use math::{
     token_amount::TokenAmount, MAX_SQRT_PRICE, MIN_SQRT_PRICE,
 };
 // import for timestamp and porgram_id
-use gstd::exec;
+use gstd::{errors::ReplyCode, exec};
 use sails_rs::{
     gstd::{
         msg::{self, reply, CodecMessageFuture},
@@ -1223,8 +1223,11 @@ fn reply_with_err_and_leave(err: InvariantError) {
 
 pub fn reply_handler(token: ActorId, msg_id: MessageId) {
     let invariant = InvariantStorage::as_mut();
+    // transfer failed, payload of an error reply can be arbitrary
+    if matches!(msg::reply_code(), Ok(ReplyCode::Error(_))) {
+        handle_panic(invariant, token, msg_id)
     // message is a valid reply
-    if let Ok(msg) = msg::load::<(String, String, bool)>() {
+    } else if let Ok(msg) = msg::load::<(String, String, bool)>() {
         if msg.0 == "Vft" && msg.1 == "TransferFrom" {
             handle_valid_reply(invariant, token, msg_id, msg.2)
         } else {
-- 
2.43.0


From 7f717d45d7e8e22f771f0b04832d9feda4fe425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 07/23] fix: settle transfers answered after the wait has timed
 out

The awaiting transfer was dropped when the wait timed out, so a deposit
confirmed later was never credited and a failed withdrawal never refunded.
---
 src/invariant_service.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/invariant_service.rs b/src/invariant_service.rs
index 6aa0b1a..df746b6 100644
--- a/src/invariant_service.rs
+++ b/src/invariant_service.rs
@@ -1189,6 +1189,11 @@ where
         token: ActorId,
         transfer_type: TransferType,
     ) -> Result<(), InvariantError> {
+        // reply may still arrive, so the transfer has to be kept until it's handled
+        if matches!(&message, Err(e) if e.timed_out()) {
+            return Err(InvariantError::ReplyHandlingFailed);
+        }
+
         if invariant
             .awaiting_transfers
             .remove(&(message_id, token))
-- 
2.43.0


From a2bc0424e5d567bf4dec37c817e037b0255ed446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 08/23] fix: page queries to the end of the list when offset
 plus size overflows

---
 src/contracts/collections/pool_keys.rs | 2 +-
 src/contracts/collections/positions.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contracts/collections/pool_keys.rs b/src/contracts/collections/pool_keys.rs
index 5756c91..3b0d5ac 100644
--- a/src/contracts/collections/pool_keys.rs
+++ b/src/contracts/collections/pool_keys.rs
@@ -45,7 +45,7 @@ impl PoolKeys {
     }
 
     pub fn get_all(&self, size: u16, offset: u16) -> Vec<PoolKey> {
-        let offset_with_size = offset.checked_add(size).unwrap();
+        let offset_with_size = offset.saturating_add(size);
 
         let max = if offset_with_size > self.pool_keys_length {
             self.pool_keys_length
diff --git a/src/contracts/collections/positions.rs b/src/contracts/collections/positions.rs
index 7202b58..a34c530 100644
--- a/src/contracts/collections/positions.rs
+++ b/src/contracts/collections/positions.rs
@@ -88,7 +88,7 @@ impl<'a> Positions {
 
     pub fn get_slice(&self, account_id: &ActorId, offset: u32, size: u32) -> Vec<Position> {
         let length = self.get_length(account_id);
-        let offset_with_size = offset.checked_add(size).unwrap();
+        let offset_with_size = offset.saturating_add(size);
 
         let max = if offset_with_size > length {
             length
-- 
2.43.0


From 0f1e053907764a3d6df5bf5429e7cc66f39a9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 09/23] fix: get_liquidity no longer traps when the price is at
 the end of the range

At the lower (upper) bound of the range only token x (y) is needed, but the
other token's liquidity was computed by dividing by a zero price difference.
---
 src/contracts/logic/liquidity_result.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index 7642d29..8ca116c 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -35,7 +35,7 @@ pub fn get_liquidity(
     let lower_sqrt_price = ok_or_mark_trace!(calculate_sqrt_price(lower_tick))?;
     let upper_sqrt_price = ok_or_mark_trace!(calculate_sqrt_price(upper_tick))?;
 
-    if upper_sqrt_price < current_sqrt_price {
+    if upper_sqrt_price <= current_sqrt_price {
         // single token y
         let result_by_y = ok_or_mark_trace!(get_liquidity_by_y_sqrt_price(
             y,
@@ -49,7 +49,7 @@ pub fn get_liquidity(
             y,
             l: result_by_y.l,
         });
-    } else if current_sqrt_price < lower_sqrt_price {
+    } else if current_sqrt_price <= lower_sqrt_price {
         // single token x
         let result_by_x = ok_or_mark_trace!(get_liquidity_by_x_sqrt_price(
             x,
-- 
2.43.0


From 9312e241df5b05cd85962691d09eda340ef89c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 10/23] fix: round token amounts of a liquidity up only once

With rounding up requested, the fraction of the liquidity was dropped first,
so the amount could be less than what opening the position costs.
---
 sdk/src/wasm/math.rs                    | 27 ++++++++++++++++---------
 src/contracts/logic/liquidity_result.rs | 27 ++++++++++++++++---------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/sdk/src/wasm/math.rs b/sdk/src/wasm/math.rs
index 98c1011..9f39c0b 100644
--- a/sdk/src/wasm/math.rs
+++ b/sdk/src/wasm/math.rs
@@ -183,14 +183,18 @@ pub fn calculate_x(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
-
     Ok(if rounding_up {
+        // rounded once, so that no liquidity is left out of the amount
+        let denominator = denominator.cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
         TokenAmount::new(
-            (common + Liquidity::from_integer(1).get() - U256::from(1))
-                / Liquidity::from_integer(1).get(),
+            TokenAmount::checked_from_value(
+                (liquidity.cast::<U512>() * nominator.cast::<U512>() + denominator - U512::from(1))
+                    / denominator,
+            )
+            .map_err(|_| err!("Overflow in calculating token amount"))?,
         )
     } else {
+        let common = liquidity.big_mul(nominator).big_div(denominator).get();
         TokenAmount::new(common / Liquidity::from_integer(1).get())
     })
 }
@@ -200,15 +204,20 @@ pub fn calculate_y(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
     Ok(if rounding_up {
+        // rounded once, so that no liquidity is left out of the amount
+        let denominator = SqrtPrice::from_integer(1).cast::<U512>()
+            * Liquidity::from_integer(1).cast::<U512>();
         TokenAmount::new(
-            (sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                + SqrtPrice::from_integer(1).cast::<U256>()
-                - 1)
-                / SqrtPrice::from_integer(1).cast::<U256>(),
+            TokenAmount::checked_from_value(
+                (sqrt_price_diff.cast::<U512>() * liquidity.cast::<U512>() + denominator
+                    - U512::from(1))
+                    / denominator,
+            )
+            .map_err(|_| err!("Overflow in calculating token amount"))?,
         )
     } else {
+        let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
         TokenAmount::new(
             sqrt_price_diff.cast::<U256>() * shifted_liquidity
                 / SqrtPrice::from_integer(1).cast::<U256>(),
diff --git a/src/contracts/logic/liquidity_result.rs b/src/contracts/logic/liquidity_result.rs
index 8ca116c..3556358 100644
--- a/src/contracts/logic/liquidity_result.rs
+++ b/src/contracts/logic/liquidity_result.rs
@@ -249,14 +249,18 @@ pub fn calculate_x(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let common = liquidity.big_mul(nominator).big_div(denominator).get();
-
     Ok(if rounding_up {
+        // rounded once, so that no liquidity is left out of the amount
+        let denominator = denominator.cast::<U512>() * Liquidity::from_integer(1).cast::<U512>();
         TokenAmount::new(
-            (common + Liquidity::from_integer(1).get() - U256::from(1))
-                / Liquidity::from_integer(1).get(),
+            TokenAmount::checked_from_value(
+                (liquidity.cast::<U512>() * nominator.cast::<U512>() + denominator - U512::from(1))
+                    / denominator,
+            )
+            .map_err(|_| err!("Overflow in calculating token amount"))?,
         )
     } else {
+        let common = liquidity.big_mul(nominator).big_div(denominator).get();
         TokenAmount::new(common / Liquidity::from_integer(1).get())
     })
 }
@@ -266,15 +270,20 @@ pub fn calculate_y(
     liquidity: Liquidity,
     rounding_up: bool,
 ) -> TrackableResult<TokenAmount> {
-    let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
     Ok(if rounding_up {
+        // rounded once, so that no liquidity is left out of the amount
+        let denominator = SqrtPrice::from_integer(1).cast::<U512>()
+            * Liquidity::from_integer(1).cast::<U512>();
         TokenAmount::new(
-            (sqrt_price_diff.cast::<U256>() * shifted_liquidity
-                + SqrtPrice::from_integer(1).cast::<U256>()
-                - 1)
-                / SqrtPrice::from_integer(1).cast::<U256>(),
+            TokenAmount::checked_from_value(
+                (sqrt_price_diff.cast::<U512>() * liquidity.cast::<U512>() + denominator
+                    - U512::from(1))
+                    / denominator,
+            )
+            .map_err(|_| err!("Overflow in calculating token amount"))?,
         )
     } else {
+        let shifted_liquidity = liquidity.get() / Liquidity::from_integer(1).get();
         TokenAmount::new(
             sqrt_price_diff.cast::<U256>() * shifted_liquidity
                 / SqrtPrice::from_integer(1).cast::<U256>(),
-- 
2.43.0


From e94a31d813a556a3dd48229577cbfd45c7df782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 11/23] fix: amounts beyond what the liquidity can absorb
 change the price instead of failing the swap

---
 src/contracts/storage/pool.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index 313c498..15cd929 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -171,14 +171,16 @@ impl Pool {
             return (total_amount, remaining_amount, has_crossed);
         };
 
-        let is_enough_amount_to_cross = unwrap!(is_enough_amount_to_change_price(
+        // no price is found when it is more than the liquidity can absorb, so the price must change
+        let is_enough_amount_to_cross = is_enough_amount_to_change_price(
             remaining_amount,
             result.next_sqrt_price,
             self.liquidity,
             fee_tier.fee,
             by_amount_in,
             x_to_y,
-        ));
+        )
+        .unwrap_or(true);
 
         let tick_index = match tick {
             UpdatePoolTick::TickInitialized(tick) => {
-- 
2.43.0


From ffc778ba3393e941b413c00bcca7d5a8ff682da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 12/23] fix: refuse to create a pool when the number of pool
 keys would wrap around

---
 src/contracts/collections/pool_keys.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/contracts/collections/pool_keys.rs b/src/contracts/collections/pool_keys.rs
index 3b0d5ac..f42ed81 100644
--- a/src/contracts/collections/pool_keys.rs
+++ b/src/contracts/collections/pool_keys.rs
@@ -19,10 +19,16 @@ impl PoolKeys {
             return Err(InvariantError::PoolKeyAlreadyExist);
         }
 
+        // an index that wrapped around would hide the pools listed so far
+        let next_length = self
+            .pool_keys_length
+            .checked_add(1)
+            .expect("Too many pools");
+
         self.pool_keys.insert(*pool_key, self.pool_keys_length);
         self.pool_keys_by_index
             .insert(self.pool_keys_length, *pool_key);
-        self.pool_keys_length += 1;
+        self.pool_keys_length = next_length;
 
         Ok(())
     }
-- 
2.43.0


From bcfb840d884916392171a89673c07075c9be3371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:36 +0000
Subject: [PATCH 13/23] fix: a swap step takes no more than the amount offered
 when rounding overestimates the input

---
 calc/math/clamm.rs    | 5 +++++
 sdk/src/wasm/clamm.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/calc/math/clamm.rs b/calc/math/clamm.rs
index 3eacc5a..05c7273 100644
--- a/calc/math/clamm.rs
+++ b/calc/math/clamm.rs
@@ -112,6 +112,11 @@ pub fn compute_swap_step(
         };
     }
 
+    // Amount in can not exceed amount, rounding may overestimate it
+    if by_amount_in && amount_in > amount {
+        amount_in = amount;
+    }
+
     // Amount out can not exceed amount
     if !by_amount_in && amount_out > amount {
         amount_out = amount;
diff --git a/sdk/src/wasm/clamm.rs b/sdk/src/wasm/clamm.rs
index 92e7278..795922a 100644
--- a/sdk/src/wasm/clamm.rs
+++ b/sdk/src/wasm/clamm.rs
@@ -141,6 +141,11 @@ pub fn compute_swap_step(
         };
     }
 
+    // Amount in can not exceed amount, rounding may overestimate it
+    if by_amount_in && amount_in > amount {
+        amount_in = amount;
+    }
+
     // Amount out can not exceed amount
     if !by_amount_in && amount_out > amount {
         amount_out = amount;
-- 
2.43.0


From 9803c7ac6026527cde20d72f9114e0bb027729b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:44 +0000
Subject: [PATCH 14/23] fix: route quotes account for earlier hops through the
 same pool

---
 src/invariant_service.rs | 35 ++++++++++++++++++++++++++---------
 src/invariant_storage.rs | 30 ++++++++++++++++++++++++------
 2 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/src/invariant_service.rs b/src/invariant_service.rs
index df746b6..4f24157 100644
--- a/src/invariant_service.rs
+++ b/src/invariant_service.rs
@@ -61,7 +61,7 @@ pub const VARA_ADDRESS: ActorId = ActorId::zero();
 
 pub enum RouteType<'a, TExecContext> {
     Swap(&'a mut InvariantService<TExecContext>),
-    Quote,
+    Quote(Vec<(PoolKey, Pool)>),
 }
 pub struct InvariantService<TExecContext> {
     exec_context: TExecContext,
@@ -599,7 +599,7 @@ where
         amount_in: TokenAmount,
         swaps: Vec<SwapHop>,
     ) -> Result<TokenAmount, InvariantError> {
-        Self::route(RouteType::Quote, amount_in, swaps)
+        Self::route(RouteType::Quote(vec![]), amount_in, swaps)
     }
 
     fn route<'a>(
@@ -622,13 +622,30 @@ where
                 RouteType::Swap(contract) => {
                     contract.swap(pool_key, x_to_y, next_swap_amount, true, sqrt_price_limit)
                 }
-                RouteType::Quote => invariant.calculate_swap(
-                    pool_key,
-                    x_to_y,
-                    next_swap_amount,
-                    true,
-                    sqrt_price_limit,
-                )?,
+                RouteType::Quote(pools) => {
+                    // a pool visited again is left as the earlier hop would leave it
+                    let visited = pools.iter().rev().find(|(key, _)| *key == pool_key);
+                    let result = match visited {
+                        Some((_, pool)) => invariant.calculate_swap_from(
+                            pool.clone(),
+                            pool_key,
+                            x_to_y,
+                            next_swap_amount,
+                            true,
+                            sqrt_price_limit,
+                        ),
+                        None => invariant.calculate_swap(
+                            pool_key,
+                            x_to_y,
+                            next_swap_amount,
+                            true,
+                            sqrt_price_limit,
+                        ),
+                    }?;
+                    pools.push((pool_key, result.pool.clone()));
+
+                    result
+                }
             };
 
             next_swap_amount = result.amount_out;
diff --git a/src/invariant_storage.rs b/src/invariant_storage.rs
index 2e0cc72..cea480e 100644
--- a/src/invariant_storage.rs
+++ b/src/invariant_storage.rs
@@ -1,7 +1,7 @@
 use contracts::{declare_storage, get_max_chunk};
 pub use contracts::{
-    AwaitingTransfer, FeeTiers, InvariantError, PoolKey, PoolKeys, Pools, Positions, Tick, Tickmap,
-    Ticks, UpdatePoolTick,
+    AwaitingTransfer, FeeTiers, InvariantError, Pool, PoolKey, PoolKeys, Pools, Positions, Tick,
+    Tickmap, Ticks, UpdatePoolTick,
 };
 pub use decimal::*;
 pub use gstd::exec;
@@ -117,15 +117,33 @@ impl Invariant {
         by_amount_in: bool,
         sqrt_price_limit: SqrtPrice,
     ) -> Result<CalculateSwapResult, InvariantError> {
-        let current_timestamp = exec::block_timestamp();
-
         if amount.is_zero() {
             return Err(InvariantError::AmountIsZero);
         }
 
-        let mut ticks: Vec<Tick> = vec![];
+        self.calculate_swap_from(
+            self.pools.get(&pool_key)?,
+            pool_key,
+            x_to_y,
+            amount,
+            by_amount_in,
+            sqrt_price_limit,
+        )
+    }
+
+    /// Calculates a swap that starts from the given state of the pool.
+    pub fn calculate_swap_from(
+        &self,
+        mut pool: Pool,
+        pool_key: PoolKey,
+        x_to_y: bool,
+        amount: TokenAmount,
+        by_amount_in: bool,
+        sqrt_price_limit: SqrtPrice,
+    ) -> Result<CalculateSwapResult, InvariantError> {
+        let current_timestamp = exec::block_timestamp();
 
-        let mut pool = self.pools.get(&pool_key)?;
+        let mut ticks: Vec<Tick> = vec![];
 
         if x_to_y {
             if pool.sqrt_price <= sqrt_price_limit
-- 
2.43.0


From bea050841e34a84dc7d8de67e2563138fa884fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:45 +0000
Subject: [PATCH 15/23] fix: a pool opens at the price it is created with

---
 src/contracts/storage/pool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contracts/storage/pool.rs b/src/contracts/storage/pool.rs
index 15cd929..add5609 100644
--- a/src/contracts/storage/pool.rs
+++ b/src/contracts/storage/pool.rs
@@ -8,7 +8,7 @@ use math::{
     liquidity::Liquidity,
     log::get_tick_at_sqrt_price,
     percentage::Percentage,
-    sqrt_price::{calculate_sqrt_price, check_tick_to_sqrt_price_relationship, SqrtPrice},
+    sqrt_price::{check_tick_to_sqrt_price_relationship, SqrtPrice},
     token_amount::TokenAmount,
 };
 use sails_rs::prelude::*;
@@ -69,7 +69,7 @@ impl Pool {
         }
 
         Ok(Self {
-            sqrt_price: unwrap!(calculate_sqrt_price(init_tick)),
+            sqrt_price: init_sqrt_price,
             current_tick_index: init_tick,
             start_timestamp: current_timestamp,
             last_timestamp: current_timestamp,
-- 
2.43.0


From 6d181e14a1aa4462ebfb6240aff523e6c1233389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 16/23] fix: the SDK asks for a user's number of positions by
 user

---
 sdk/src/invariant.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/src/invariant.ts b/sdk/src/invariant.ts
index fe50b45..5a4de36 100644
--- a/sdk/src/invariant.ts
+++ b/sdk/src/invariant.ts
@@ -383,9 +383,9 @@ export class Invariant {
     return new Map(result)
   }
 
-  async getUserPositionAmount(key: PoolKey, owner: ActorId): Promise<TokenAmount> {
+  async getUserPositionAmount(owner: ActorId): Promise<bigint> {
     return BigInt(
-      await this.contract.service.getUserPositionAmount(key as any, owner as any, DEFAULT_ADDRESS)
+      await this.contract.service.getUserPositionAmount(owner as any, DEFAULT_ADDRESS)
     )
   }
 
-- 
2.43.0


From 3c777b1077fcb30659affa4627d18307cab9a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 17/23] fix: skip the first pages of a user's positions when
 their number is unknown

---
 sdk/src/invariant.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdk/src/invariant.ts b/sdk/src/invariant.ts
index 5a4de36..5426a52 100644
--- a/sdk/src/invariant.ts
+++ b/sdk/src/invariant.ts
@@ -215,7 +215,10 @@ export class Invariant {
     skipPages?: number[],
     positionsPerPage?: bigint
   ) {
-    const firstPageIndex = skipPages?.find(i => !skipPages.includes(i)) || 0
+    let firstPageIndex = 0
+    while (skipPages?.includes(firstPageIndex)) {
+      firstPageIndex++
+    }
     const positionsPerPageLimit = positionsPerPage || POSITIONS_ENTRIES_LIMIT
 
     let pages: Page[] = []
@@ -227,7 +230,7 @@ export class Invariant {
         BigInt(firstPageIndex) * positionsPerPageLimit
       )
 
-      pages.push({ index: 0, entries: positionEntries })
+      pages.push({ index: firstPageIndex, entries: positionEntries })
       actualPositionsCount = positionsCount
     }
 
-- 
2.43.0


From 092647ea0aef78ca360cc43e75cc00405627556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 18/23] fix: amounts and fees that requests return are bigints

---
 sdk/src/invariant.ts | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/sdk/src/invariant.ts b/sdk/src/invariant.ts
index 5426a52..b5ec6ae 100644
--- a/sdk/src/invariant.ts
+++ b/sdk/src/invariant.ts
@@ -428,7 +428,7 @@ export class Invariant {
   ): Promise<TransactionWrapper<Percentage>> {
     return new TransactionWrapper<Percentage>(
       await this.contract.service.changeProtocolFee(fee as any).withGas(gasLimit)
-    )
+    ).withDecode(BigInt)
   }
 
   async changeProtocolFee(
@@ -594,7 +594,9 @@ export class Invariant {
   ): Promise<TransactionWrapper<TokenAmount>> {
     return new TransactionWrapper<TokenAmount>(
       await this.contract.service.depositSingleToken(token as any, amount as any).withGas(gasLimit)
-    ).withValidate(validateInvariantSingleDeposit)
+    )
+      .withDecode(BigInt)
+      .withValidate(validateInvariantSingleDeposit)
   }
 
   async depositSingleToken(
@@ -639,7 +641,9 @@ export class Invariant {
 
     let tx = await this.contract.service.depositVara().withGas(gasLimit)
     tx = await tx.withValue(amount)
-    return new TransactionWrapper<TokenAmount>(tx).withValidate(validateInvariantVaraDeposit)
+    return new TransactionWrapper<TokenAmount>(tx)
+      .withDecode(BigInt)
+      .withValidate(validateInvariantVaraDeposit)
   }
 
   async depositVara(
@@ -799,7 +803,7 @@ export class Invariant {
       await this.contract.service
         .swapRoute(amountIn as any, expectedAmountOut as any, slippage as any, swaps as any[])
         .withGas(gasLimit)
-    )
+    ).withDecode(BigInt)
   }
 
   async swapRoute(
@@ -841,7 +845,9 @@ export class Invariant {
   ): Promise<TransactionWrapper<TokenAmount>> {
     return new TransactionWrapper<TokenAmount>(
       await this.contract.service.withdrawSingleToken(token as any, amount as any).withGas(gasLimit)
-    ).withValidate(validateInvariantSingleWithdraw)
+    )
+      .withDecode(BigInt)
+      .withValidate(validateInvariantSingleWithdraw)
   }
 
   async withdrawSingleToken(
@@ -863,7 +869,9 @@ export class Invariant {
     }
 
     const tx = await this.contract.service.withdrawVara(amount as any).withGas(gasLimit)
-    return new TransactionWrapper<TokenAmount>(tx).withValidate(validateInvariantVaraWithdraw)
+    return new TransactionWrapper<TokenAmount>(tx)
+      .withDecode(BigInt)
+      .withValidate(validateInvariantVaraWithdraw)
   }
 
   async withdrawVara(
-- 
2.43.0


From efcc5d980a948f6ddfc298b4fae0a7eb34e6bd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 19/23] fix: filterTicks drops every tick on the other side of
 the price

---
 sdk/src/utils.ts | 22 +---------------------
 1 file changed, 1 insertion(+), 21 deletions(-)

diff --git a/sdk/src/utils.ts b/sdk/src/utils.ts
index 261112d..ba4578e 100644
--- a/sdk/src/utils.ts
+++ b/sdk/src/utils.ts
@@ -483,27 +483,7 @@ export function filterTicks<T extends Tick | LiquidityTick>(
   tickIndex: bigint,
   xToY: boolean
 ): T[] {
-  const filteredTicks = new Array(...ticks)
-  let tickCount = 0
-
-  for (const [index, tick] of filteredTicks.entries()) {
-    if (tickCount >= MAX_SWAP_STEPS) {
-      break
-    }
-
-    if (xToY) {
-      if (tick.index > tickIndex) {
-        filteredTicks.splice(index, 1)
-      }
-    } else {
-      if (tick.index < tickIndex) {
-        filteredTicks.splice(index, 1)
-      }
-    }
-    tickCount++
-  }
-
-  return filteredTicks
+  return ticks.filter(tick => (xToY ? tick.index <= tickIndex : tick.index >= tickIndex))
 }
 
 export function filterTickmap(
-- 
2.43.0


From b8259e0274cda9846045147da9c01dda4e8d6ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 20/23] fix: the type of a token's reply has its closing
 bracket

---
 sdk/src/utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/utils.ts b/sdk/src/utils.ts
index ba4578e..89c4a0f 100644
--- a/sdk/src/utils.ts
+++ b/sdk/src/utils.ts
@@ -317,7 +317,7 @@ export class TransactionWrapper<U> {
 
 export const validateFungibleTokenResponse = (message: UserMessageSent) => {
   const registry = new TypeRegistry()
-  const json = registry.createType('(String, String, bool', message.data.message.payload)
+  const json = registry.createType('(String, String, bool)', message.data.message.payload)
   return json[2].isTrue ? null : 'Token response invalid'
 }
 
-- 
2.43.0


From c9a6a6a604c5d49b5c16d286144835a5dc446595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 21/23] fix: calculateTick returns a bigint, as declared

---
 sdk/src/utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/utils.ts b/sdk/src/utils.ts
index 89c4a0f..25c47c5 100644
--- a/sdk/src/utils.ts
+++ b/sdk/src/utils.ts
@@ -610,7 +610,7 @@ export const getLiquidityByY = (
 }
 
 export const calculateTick = (sqrtPrice: SqrtPrice, tickSpacing: bigint): bigint => {
-  return _calculateTick(sqrtPrice, tickSpacing)
+  return BigInt(_calculateTick(sqrtPrice, tickSpacing))
 }
 
 export const isTokenX = (token0: HexString, token1: HexString): boolean => {
-- 
2.43.0


From b9c3d1632ca8434efefba87122e971415d35d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:17 +0000
Subject: [PATCH 22/23] fix: token amounts with slippage use the tick of each
 price bound

---
 sdk/src/utils.ts | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/sdk/src/utils.ts b/sdk/src/utils.ts
index 25c47c5..bcfe015 100644
--- a/sdk/src/utils.ts
+++ b/sdk/src/utils.ts
@@ -67,7 +67,15 @@ import {
   Liquidity
 } from './schema.js'
 import { Network } from './network.js'
-import { CONCENTRATION_FACTOR, LOCAL, MAINNET, MAX_SWAP_STEPS, TESTNET } from './consts.js'
+import {
+  CONCENTRATION_FACTOR,
+  LOCAL,
+  MAINNET,
+  MAX_SQRT_PRICE,
+  MAX_SWAP_STEPS,
+  MIN_SQRT_PRICE,
+  TESTNET
+} from './consts.js'
 export { HexString } from '@gear-js/api'
 
 export type Signer = string | IKeyringPair
@@ -781,6 +789,12 @@ export const calculateAmountDelta = (
   return [wasmSerializer.decodeTokenAmount(x), wasmSerializer.decodeTokenAmount(y)]
 }
 
+const clampSqrtPrice = (sqrtPrice: SqrtPrice): SqrtPrice => {
+  if (sqrtPrice < MIN_SQRT_PRICE) return MIN_SQRT_PRICE as any
+  if (sqrtPrice > MAX_SQRT_PRICE) return MAX_SQRT_PRICE as any
+  return sqrtPrice
+}
+
 export const calculateTokenAmountsWithSlippage = (
   tickSpacing: bigint,
   currentSqrtPrice: SqrtPrice,
@@ -790,13 +804,15 @@ export const calculateTokenAmountsWithSlippage = (
   slippage: Percentage,
   roundingUp: boolean
 ): [bigint, bigint] => {
-  const lowerBound = calculateSqrtPriceAfterSlippage(currentSqrtPrice, slippage, false)
-  const upperBound = calculateSqrtPriceAfterSlippage(currentSqrtPrice, slippage, true)
-
-  const currentTickIndex = calculateTick(currentSqrtPrice, tickSpacing)
+  const lowerBound = clampSqrtPrice(
+    calculateSqrtPriceAfterSlippage(currentSqrtPrice, slippage, false)
+  )
+  const upperBound = clampSqrtPrice(
+    calculateSqrtPriceAfterSlippage(currentSqrtPrice, slippage, true)
+  )
 
   const [lowerX, lowerY] = calculateAmountDelta(
-    currentTickIndex,
+    calculateTick(lowerBound, tickSpacing),
     lowerBound,
     liquidity,
     roundingUp,
@@ -804,7 +820,7 @@ export const calculateTokenAmountsWithSlippage = (
     lowerTickIndex
   )
   const [upperX, upperY] = calculateAmountDelta(
-    currentTickIndex,
+    calculateTick(upperBound, tickSpacing),
     upperBound,
     liquidity,
     roundingUp,
-- 
2.43.0


From 80004333172de1f7bb11214b59dbda4d87d7267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:56 +0000
Subject: [PATCH 23/23] fix: cross a tick when buying x stops at a price limit
 on it

A swap of y for x whose amount is used up exactly at its price limit, with
the limit on the price of an initialized tick, moved the current tick to that
tick without crossing it. Pool liquidity kept counting the ranges that end
there, later trades never crossed the tick, and positions were owed more than
the contract holds.
---
 sdk/src/wasm/collections/tickmap.rs  | 3 ++-
 src/contracts/collections/tickmap.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/src/wasm/collections/tickmap.rs b/sdk/src/wasm/collections/tickmap.rs
index 3841b9e..42cb4cc 100644
--- a/sdk/src/wasm/collections/tickmap.rs
+++ b/sdk/src/wasm/collections/tickmap.rs
@@ -258,8 +258,9 @@ impl Tickmap {
             Some(index) => {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
+                // buying x enters the tick which the limit lies on, so it has to be crossed
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
diff --git a/src/contracts/collections/tickmap.rs b/src/contracts/collections/tickmap.rs
index e87d24a..546de40 100644
--- a/src/contracts/collections/tickmap.rs
+++ b/src/contracts/collections/tickmap.rs
@@ -196,8 +196,9 @@ impl Tickmap {
             Some(index) => {
                 let sqrt_price = calculate_sqrt_price(index).unwrap();
 
+                // buying x enters the tick which the limit lies on, so it has to be crossed
                 if (x_to_y && sqrt_price > sqrt_price_limit)
-                    || (!x_to_y && sqrt_price < sqrt_price_limit)
+                    || (!x_to_y && sqrt_price <= sqrt_price_limit)
                 {
                     Ok((sqrt_price, Some((index, true))))
                 } else {
-- 
2.43.0

