From 13ca4ebe1d3e85060d0e71a555bff01aa1a80da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:50 +0000
Subject: [PATCH 1/2] fix: do not reject every fixed price deposit when the
 cost of the remaining supply exceeds u64

get_remaining_deposit_quota priced the whole remaining supply of the registry and
failed with MathOverflow when that cost does not fit (supply * q_price > u128::MAX,
or more than u64::MAX quote lamports), although initialize_presale accepts such a
presale. Every deposit was then rejected. The registry is simply not the limiting
quota in that case.
---
 .../src/presale_mode_handler/fixed_price_presale.rs    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
index d8005cc..2e0c7df 100644
--- a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
+++ b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
@@ -228,10 +228,12 @@ impl PresaleModeHandler for FixedPricePresaleHandler {
         let registry_remaining_base_token =
             presale_registry.presale_supply.safe_sub(total_token_sold)?;
 
-        let registry_remaining_deposit_quota: u64 = u128::from(registry_remaining_base_token)
-            .safe_mul(self.q_price)?
-            .div_ceil(SCALE_MULTIPLIER)
-            .safe_cast()?;
+        // The cost of the whole remaining supply can exceed u64::MAX (or even u128::MAX before scaling down).
+        // In that case the registry itself doesn't limit the deposit, only the global and personal quota do.
+        let registry_remaining_deposit_quota = u128::from(registry_remaining_base_token)
+            .checked_mul(self.q_price)
+            .and_then(|q_amount| u64::try_from(q_amount.div_ceil(SCALE_MULTIPLIER)).ok())
+            .unwrap_or(u64::MAX);
 
         let personal_remaining_quota =
             escrow.get_remaining_deposit_quota(presale_registry.buyer_maximum_deposit_cap)?;
-- 
2.43.0


From c1f330e45f04e4622a0d6bb8acb98cf3f2d0c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:06 +0000
Subject: [PATCH 2/2] fix: emit the event when fixed price presale args are
 closed

The instruction never called its handler, so EvtFixedPricePresaleArgsClose
was never emitted.
---
 programs/presale/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/presale/src/lib.rs b/programs/presale/src/lib.rs
index c5d7119..a661d6e 100644
--- a/programs/presale/src/lib.rs
+++ b/programs/presale/src/lib.rs
@@ -60,9 +60,9 @@ pub mod presale {
     }
 
     pub fn close_fixed_price_presale_args(
-        _ctx: Context<CloseFixedPricePresaleArgsCtx>,
+        ctx: Context<CloseFixedPricePresaleArgsCtx>,
     ) -> Result<()> {
-        Ok(())
+        instructions::handle_close_fixed_price_presale_args(ctx)
     }
 
     pub fn initialize_presale<'a, 'b, 'c: 'info, 'info>(
-- 
2.43.0

