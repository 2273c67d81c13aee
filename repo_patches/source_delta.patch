From 60c81787ac64c896d7e5cfd142c7f7dc07eae9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:47 +0000
Subject: [PATCH 01/14] fix: reject a proposal early only when it can no longer
 pass

does_vote_count_fail rounded 1 - percentage down while does_vote_count_pass
rounds the percentage down, so with a percentage of more than nine decimals a
proposal could be rejected before expiry although the remaining votes could
still have passed it.
---
 packages/dao-voting/src/voting.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/dao-voting/src/voting.rs b/packages/dao-voting/src/voting.rs
index 2aabafc..c4e0a9a 100644
--- a/packages/dao-voting/src/voting.rs
+++ b/packages/dao-voting/src/voting.rs
@@ -127,11 +127,15 @@ pub fn does_vote_count_fail(
             // Fails if no votes have >= half of all votes.
             no_votes.full_mul(2u64) >= options.into()
         }
-        PercentageThreshold::Percent(percent) => compare_vote_count(
-            no_votes,
-            VoteCmp::Greater,
+        // Fails if the proposal would not pass even if all the other
+        // votes were in favor. This must be the exact complement of
+        // `does_vote_count_pass`, or a proposal could be rejected
+        // early which would have passed.
+        PercentageThreshold::Percent(percent) => !compare_vote_count(
+            options.saturating_sub(no_votes),
+            VoteCmp::Geq,
             options,
-            Decimal::one() - percent,
+            percent,
         ),
     }
 }
-- 
2.43.0


From 483e0cbfb1a45715060336fee1c154c2a7dbcab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:54 +0000
Subject: [PATCH 02/14] fix: value of large cw20 stakes no longer overflows

StakedValue multiplied stake and pool in 128 bits, so the query failed
for stakes above about 2^64 base units.
---
 contracts/staking/cw20-stake/src/contract.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/contracts/staking/cw20-stake/src/contract.rs b/contracts/staking/cw20-stake/src/contract.rs
index 64af748..678eae3 100644
--- a/contracts/staking/cw20-stake/src/contract.rs
+++ b/contracts/staking/cw20-stake/src/contract.rs
@@ -398,11 +398,8 @@ pub fn query_staked_value(
             value: Uint128::zero(),
         })
     } else {
-        let value = staked
-            .checked_mul(balance)
-            .map_err(StdError::overflow)?
-            .checked_div(total)
-            .map_err(StdError::divide_by_zero)?;
+        // promotes to 256 bits, staked <= total so the result fits
+        let value = staked.multiply_ratio(balance, total);
         Ok(StakedValueResponse { value })
     }
 }
-- 
2.43.0


From 8a9cf4569fedf2f8f13aef84bf4b9b4153824c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:50 +0000
Subject: [PATCH 03/14] fix: a partial emission period is no longer lost when
 rewards are updated

Linear emissions distribute complete periods only, but every update of the
rewards moved the time of the last update to the current block. Whatever part
of a period had passed was dropped, so with an update in every period, e.g. by
staking and unstaking a single token, nobody ever earned anything. Only advance
by the complete periods that have been distributed.
---
 .../dao-rewards-distributor/src/contract.rs   |  2 +-
 .../dao-rewards-distributor/src/rewards.rs    |  2 +-
 .../dao-rewards-distributor/src/state.rs      | 41 ++++++++++++-------
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/contracts/distribution/dao-rewards-distributor/src/contract.rs b/contracts/distribution/dao-rewards-distributor/src/contract.rs
index c9d2955..2a60d38 100644
--- a/contracts/distribution/dao-rewards-distributor/src/contract.rs
+++ b/contracts/distribution/dao-rewards-distributor/src/contract.rs
@@ -462,7 +462,7 @@ fn execute_fund_linear(
     if continuous && previously_funded && was_expired {
         distribution.active_epoch.total_earned_puvp =
             get_active_total_earned_puvp(deps.as_ref(), &env.block, &distribution)?;
-        distribution.active_epoch.bump_last_updated(&env.block);
+        distribution.active_epoch.bump_last_updated(&env.block)?;
     }
 
     DISTRIBUTIONS.save(deps.storage, distribution.id, &distribution)?;
diff --git a/contracts/distribution/dao-rewards-distributor/src/rewards.rs b/contracts/distribution/dao-rewards-distributor/src/rewards.rs
index da231ce..957dce9 100644
--- a/contracts/distribution/dao-rewards-distributor/src/rewards.rs
+++ b/contracts/distribution/dao-rewards-distributor/src/rewards.rs
@@ -33,7 +33,7 @@ pub fn update_rewards(
     // first update the active epoch earned puvp value up to the current block
     distribution.active_epoch.total_earned_puvp =
         get_active_total_earned_puvp(deps.as_ref(), &env.block, &distribution)?;
-    distribution.active_epoch.bump_last_updated(&env.block);
+    distribution.active_epoch.bump_last_updated(&env.block)?;
 
     // then calculate the total applicable puvp, which is the sum of historical
     // rewards earned puvp and the active epoch total earned puvp we just
diff --git a/contracts/distribution/dao-rewards-distributor/src/state.rs b/contracts/distribution/dao-rewards-distributor/src/state.rs
index 9095e91..f3aeb30 100644
--- a/contracts/distribution/dao-rewards-distributor/src/state.rs
+++ b/contracts/distribution/dao-rewards-distributor/src/state.rs
@@ -6,7 +6,7 @@ use cosmwasm_std::{
 use cw20::{Denom, Expiration};
 use cw_storage_plus::{Item, Map};
 use cw_utils::Duration;
-use std::{cmp::min, collections::HashMap};
+use std::{cmp::min, collections::HashMap, ops::Add};
 
 use crate::{
     helpers::{get_total_voting_power_at_block, scale_factor, DurationExt, ExpirationExt},
@@ -145,27 +145,40 @@ pub struct Epoch {
 }
 
 impl Epoch {
-    /// bump the last_updated_total_earned_puvp field to the minimum of the
-    /// current block and ends_at since rewards cannot be distributed after
-    /// ends_at. this is necessary in the case that a future funding backfills
-    /// rewards after they've finished distributing. in order to compute over
-    /// the missed space, last_updated can never be greater than ends_at. if
-    /// ends_at is never, the epoch must be paused, so it should never be
-    /// updated.
-    pub fn bump_last_updated(&mut self, current_block: &BlockInfo) {
-        match self.ends_at {
+    /// bump the last_updated_total_earned_puvp field by the complete emission
+    /// periods that have passed until the minimum of the current block and
+    /// ends_at, since rewards cannot be distributed after ends_at. a period
+    /// that has only partially passed has not been distributed yet, so it must
+    /// still count in full once it completes. this is also necessary in the
+    /// case that a future funding backfills rewards after they've finished
+    /// distributing. in order to compute over the missed space, last_updated
+    /// can never be greater than ends_at. if ends_at is never, the epoch must
+    /// be paused, so it should never be updated.
+    pub fn bump_last_updated(&mut self, current_block: &BlockInfo) -> Result<(), ContractError> {
+        let latest = match self.ends_at {
             Expiration::Never {} => {
                 self.last_updated_total_earned_puvp = Expiration::Never {};
+                return Ok(());
             }
             Expiration::AtHeight(ends_at_height) => {
-                self.last_updated_total_earned_puvp =
-                    Expiration::AtHeight(std::cmp::min(current_block.height, ends_at_height));
+                Expiration::AtHeight(min(current_block.height, ends_at_height))
             }
             Expiration::AtTime(ends_at_time) => {
-                self.last_updated_total_earned_puvp =
-                    Expiration::AtTime(std::cmp::min(current_block.time, ends_at_time));
+                Expiration::AtTime(min(current_block.time, ends_at_time))
             }
+        };
+        if let EmissionRate::Linear { duration, .. } = self.emission_rate {
+            let complete_periods = latest
+                .duration_since(&self.last_updated_total_earned_puvp)?
+                .checked_div(&duration)?;
+            self.last_updated_total_earned_puvp = self.last_updated_total_earned_puvp.add(
+                duration
+                    * Uint64::try_from(complete_periods)
+                        .map_err(StdError::from)?
+                        .u64(),
+            )?;
         }
+        Ok(())
     }
 }
 
-- 
2.43.0


From 3c0c2184faa5cee23e1f611212b3c0b1865e136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:11 +0000
Subject: [PATCH 04/14] fix: refunding a finished distribution keeps its
 undistributed remainder

When a non-continuous linear distribution had run out, the next funding
replaced its funded amount, so any remainder smaller than one emission could
never be distributed nor withdrawn. Carry it over into the new period.
---
 .../distribution/dao-rewards-distributor/src/contract.rs   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/contracts/distribution/dao-rewards-distributor/src/contract.rs b/contracts/distribution/dao-rewards-distributor/src/contract.rs
index 2a60d38..f10499b 100644
--- a/contracts/distribution/dao-rewards-distributor/src/contract.rs
+++ b/contracts/distribution/dao-rewards-distributor/src/contract.rs
@@ -428,8 +428,11 @@ fn execute_fund_linear(
             // last updated block is reset to the new start block below
         }
 
-        // reset all starting fields since a new distribution is starting
-        distribution.funded_amount = amount;
+        // reset all starting fields since a new distribution is starting. any
+        // remainder too small to have been distributed stays funded.
+        distribution.funded_amount = distribution
+            .get_undistributed_rewards(&env.block)?
+            .checked_add(amount)?;
         distribution.active_epoch.started_at = match distribution.active_epoch.emission_rate {
             EmissionRate::Paused {} => Expiration::Never {},
             EmissionRate::Immediate {} => Expiration::Never {},
-- 
2.43.0


From a2a641a53f5d6dd99f38baef6b03ecce8421f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 05/14] fix: account for slashed tokens in a canceled vest's
 liquid balance

---
 contracts/external/cw-vesting/src/vesting.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/contracts/external/cw-vesting/src/vesting.rs b/contracts/external/cw-vesting/src/vesting.rs
index 50b9d7d..2806d12 100644
--- a/contracts/external/cw-vesting/src/vesting.rs
+++ b/contracts/external/cw-vesting/src/vesting.rs
@@ -147,7 +147,14 @@ impl<'a> Payment<'a> {
                 // occured during the Funded state as those are
                 // considered when computing `owner_withdrawable`
                 // initially.
-                owner_withdrawable + (vesting.total() - vesting.claimed) - staked
+                //
+                // The vestee's share is `(vesting.total -
+                // vesting.claimed) - vesting.slashed` for the same
+                // reason: slashed tokens are not part of the
+                // contract's balance.
+                owner_withdrawable
+                    + (vesting.total() - vesting.claimed).saturating_sub(vesting.slashed)
+                    - staked
             }
         }
     }
-- 
2.43.0


From 10439a65a05bc259be89bbabf76196eb56d2e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 06/14] fix: keep validator cardinality right while tokens are
 unbonding

---
 packages/cw-stake-tracker/src/lib.rs | 77 ++++++++++++++++++----------
 1 file changed, 49 insertions(+), 28 deletions(-)

diff --git a/packages/cw-stake-tracker/src/lib.rs b/packages/cw-stake-tracker/src/lib.rs
index b9c6339..1250398 100644
--- a/packages/cw-stake-tracker/src/lib.rs
+++ b/packages/cw-stake-tracker/src/lib.rs
@@ -49,6 +49,47 @@ impl<'a> StakeTracker<'a> {
         }
     }
 
+    /// Updates the amount staked and unbonding with `validator` from
+    /// time `t` on, and the cardinality to match.
+    ///
+    /// Tokens that are unbonding leave the validator in the future,
+    /// so an update at `t` may change if there are tokens with the
+    /// validator at some times after `t` but not at others. For
+    /// example, delegating to a validator that all tokens are
+    /// unbonding from does not change the cardinality until those
+    /// tokens have unbonded.
+    fn update_validator(
+        &self,
+        storage: &mut dyn Storage,
+        t: u64,
+        validator: String,
+        update: &mut dyn FnMut(Uint128) -> Uint128,
+    ) -> StdResult<()> {
+        // how the cardinality changes at the time visited last. as
+        // amounts are only added, or only removed, this is never both
+        // positive at one time and negative at another.
+        let mut last = 0;
+        let mut changes = vec![];
+        self.validators
+            .update(storage, validator, t, &mut |old, time| {
+                let new = update(old);
+                let change = i8::from(!new.is_zero()) - i8::from(!old.is_zero());
+                if change != last {
+                    changes.push((time, change > last));
+                    last = change;
+                }
+                new
+            })?;
+        for (time, increment) in changes {
+            if increment {
+                self.cardinality.increment(storage, (), time, 1)?;
+            } else {
+                self.cardinality.decrement(storage, (), time, 1)?;
+            }
+        }
+        Ok(())
+    }
+
     pub fn on_delegate(
         &self,
         storage: &mut dyn Storage,
@@ -58,15 +99,9 @@ impl<'a> StakeTracker<'a> {
     ) -> StdResult<()> {
         self.total_staked
             .increment(storage, (), t.seconds(), amount)?;
-        let old = self
-            .validators
-            .load(storage, validator.clone(), t.seconds())?
-            .unwrap_or_default();
-        if old.is_zero() && !amount.is_zero() {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
-        }
-        self.validators
-            .increment(storage, validator, t.seconds(), amount)?;
+        self.update_validator(storage, t.seconds(), validator, &mut |staked| {
+            staked + amount
+        })?;
         Ok(())
     }
 
@@ -83,18 +118,8 @@ impl<'a> StakeTracker<'a> {
         dst: String,
         amount: Uint128,
     ) -> StdResult<()> {
-        let new = self
-            .validators
-            .decrement(storage, src, t.seconds(), amount)?;
-        if new.is_zero() {
-            self.cardinality.decrement(storage, (), t.seconds(), 1)?;
-        }
-        let new = self
-            .validators
-            .increment(storage, dst, t.seconds(), amount)?;
-        if new == amount {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
-        }
+        self.update_validator(storage, t.seconds(), src, &mut |staked| staked - amount)?;
+        self.update_validator(storage, t.seconds(), dst, &mut |staked| staked + amount)?;
         Ok(())
     }
 
@@ -112,16 +137,12 @@ impl<'a> StakeTracker<'a> {
             t.seconds() + unbonding_duration_seconds,
             amount,
         )?;
-        let new = self.validators.decrement(
+        self.update_validator(
             storage,
-            validator,
             t.seconds() + unbonding_duration_seconds,
-            amount,
+            validator,
+            &mut |staked| staked - amount,
         )?;
-        if new.is_zero() && !amount.is_zero() {
-            self.cardinality
-                .decrement(storage, (), t.seconds() + unbonding_duration_seconds, 1)?;
-        }
         Ok(())
     }
 
-- 
2.43.0


From 488e8c6596e91f28d50e2a92bfc752cc110139d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 07/14] fix: share out funds by the total power at the
 distribution height

---
 .../cw-fund-distributor/src/contract.rs       | 72 +++++++++++--------
 .../cw-fund-distributor/src/state.rs          |  2 -
 2 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/contracts/distribution/cw-fund-distributor/src/contract.rs b/contracts/distribution/cw-fund-distributor/src/contract.rs
index c5539d1..8fb32f3 100644
--- a/contracts/distribution/cw-fund-distributor/src/contract.rs
+++ b/contracts/distribution/cw-fund-distributor/src/contract.rs
@@ -5,7 +5,7 @@ use crate::msg::{
 };
 use crate::state::{
     CW20_BALANCES, CW20_CLAIMS, DISTRIBUTION_HEIGHT, FUNDING_PERIOD_EXPIRATION, NATIVE_BALANCES,
-    NATIVE_CLAIMS, TOTAL_POWER, VOTING_CONTRACT,
+    NATIVE_CLAIMS, VOTING_CONTRACT,
 };
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
@@ -44,22 +44,16 @@ pub fn instantiate(
     let voting_contract = deps.api.addr_validate(&msg.voting_contract)?;
     VOTING_CONTRACT.save(deps.storage, &voting_contract)?;
 
-    let total_power: voting::TotalPowerAtHeightResponse = deps.querier.query_wasm_smart(
-        voting_contract.clone(),
-        &voting::Query::TotalPowerAtHeight {
-            height: Some(env.block.height),
-        },
-    )?;
-    // validate the total power and store it
-    if total_power.power.is_zero() {
+    // validate the total power at the distribution height
+    let total_power = get_total_power(&deps.as_ref())?;
+    if total_power.is_zero() {
         return Err(ContractError::ZeroVotingPower {});
     }
-    TOTAL_POWER.save(deps.storage, &total_power.power)?;
 
     Ok(Response::default()
-        .add_attribute("distribution_height", env.block.height.to_string())
+        .add_attribute("distribution_height", msg.distribution_height.to_string())
         .add_attribute("voting_contract", voting_contract)
-        .add_attribute("total_power", total_power.power))
+        .add_attribute("total_power", total_power))
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
@@ -167,12 +161,42 @@ fn get_entitlement(
     }
 }
 
+/// Total voting power at the distribution height. As this height changes
+/// upon redistribution, and may be in the future, it is queried as needed.
+fn get_total_power(deps: &Deps) -> StdResult<Uint128> {
+    let voting_contract = VOTING_CONTRACT.load(deps.storage)?;
+    let dist_height = DISTRIBUTION_HEIGHT.load(deps.storage)?;
+
+    let total_power: voting::TotalPowerAtHeightResponse = deps.querier.query_wasm_smart(
+        voting_contract,
+        &voting::Query::TotalPowerAtHeight {
+            height: Some(dist_height),
+        },
+    )?;
+    Ok(total_power.power)
+}
+
+/// Errors if funds may not be claimed yet, which is the case during the
+/// funding period, and before the distribution height, at which the shares
+/// become known.
+fn assert_claiming_period(deps: &Deps, env: &Env) -> Result<(), ContractError> {
+    let funding_deadline = FUNDING_PERIOD_EXPIRATION.load(deps.storage)?;
+    let dist_height = DISTRIBUTION_HEIGHT.load(deps.storage)?;
+    if !funding_deadline.is_expired(&env.block) || env.block.height < dist_height {
+        return Err(ContractError::ClaimDuringFundingPeriod {});
+    }
+    Ok(())
+}
+
 fn get_relative_share(deps: &Deps, sender: Addr) -> Result<Decimal, StdError> {
     let voting_contract = VOTING_CONTRACT.load(deps.storage)?;
     let dist_height = DISTRIBUTION_HEIGHT.load(deps.storage)?;
-    let total_power = TOTAL_POWER.load(deps.storage)?;
+    let total_power = get_total_power(deps)?;
+    if total_power.is_zero() {
+        return Ok(Decimal::zero());
+    }
 
-    // find the voting power of sender at distributor instantiation
+    // find the voting power of sender at the distribution height
     let voting_power: voting::VotingPowerAtHeightResponse = deps.querier.query_wasm_smart(
         voting_contract,
         &voting::Query::VotingPowerAtHeight {
@@ -190,11 +214,7 @@ pub fn execute_claim_cw20s(
     sender: Addr,
     tokens: Vec<String>,
 ) -> Result<Response, ContractError> {
-    let funding_deadline = FUNDING_PERIOD_EXPIRATION.load(deps.storage)?;
-    // if current block indicates funding period, return an error
-    if !funding_deadline.is_expired(&env.block) {
-        return Err(ContractError::ClaimDuringFundingPeriod {});
-    }
+    assert_claiming_period(&deps.as_ref(), &env)?;
     if tokens.is_empty() {
         return Err(ContractError::EmptyClaim {});
     }
@@ -265,11 +285,7 @@ pub fn execute_claim_natives(
     sender: Addr,
     denoms: Vec<String>,
 ) -> Result<Response, ContractError> {
-    let funding_deadline = FUNDING_PERIOD_EXPIRATION.load(deps.storage)?;
-    // if current block indicates funding period, return an error
-    if !funding_deadline.is_expired(&env.block) {
-        return Err(ContractError::ClaimDuringFundingPeriod {});
-    }
+    assert_claiming_period(&deps.as_ref(), &env)?;
     if denoms.is_empty() {
         return Err(ContractError::EmptyClaim {});
     }
@@ -338,11 +354,7 @@ pub fn execute_claim_all(
     env: Env,
     sender: Addr,
 ) -> Result<Response, ContractError> {
-    let funding_deadline = FUNDING_PERIOD_EXPIRATION.load(deps.storage)?;
-    // claims cannot happen during funding period
-    if !funding_deadline.is_expired(&env.block) {
-        return Err(ContractError::ClaimDuringFundingPeriod {});
-    }
+    assert_claiming_period(&deps.as_ref(), &env)?;
 
     // get the lists of tokens in distributor pool
     let cw20s: Vec<Result<Addr, _>> = CW20_BALANCES
@@ -413,7 +425,7 @@ pub fn query_voting_contract(deps: Deps) -> StdResult<Binary> {
 }
 
 pub fn query_total_power(deps: Deps) -> StdResult<Binary> {
-    let total_power: Uint128 = TOTAL_POWER.may_load(deps.storage)?.unwrap_or_default();
+    let total_power = get_total_power(&deps)?;
     to_json_binary(&TotalPowerResponse { total_power })
 }
 
diff --git a/contracts/distribution/cw-fund-distributor/src/state.rs b/contracts/distribution/cw-fund-distributor/src/state.rs
index cd3cb11..3d99a71 100644
--- a/contracts/distribution/cw-fund-distributor/src/state.rs
+++ b/contracts/distribution/cw-fund-distributor/src/state.rs
@@ -9,8 +9,6 @@ pub const DISTRIBUTION_HEIGHT: Item<u64> = Item::new("distribution_height");
 pub const FUNDING_PERIOD_EXPIRATION: Item<Expiration> = Item::new("funding_period");
 /// voting contract to determine the voting power
 pub const VOTING_CONTRACT: Item<Addr> = Item::new("voting_contract");
-/// total voting power at the distribution height
-pub const TOTAL_POWER: Item<Uint128> = Item::new("total_power");
 
 /// maps token address to the amount being distributed
 pub const CW20_BALANCES: Map<Addr, Uint128> = Map::new("cw20_balances");
-- 
2.43.0


From b80fb4e9931234039e221e2b76246f1c0f869a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 08/14] fix: payroll factory only accepts receipts from the
 token being vested

---
 contracts/external/cw-payroll-factory/src/contract.rs | 6 +++++-
 contracts/external/cw-payroll-factory/src/error.rs    | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/contracts/external/cw-payroll-factory/src/contract.rs b/contracts/external/cw-payroll-factory/src/contract.rs
index ff03317..27870e7 100644
--- a/contracts/external/cw-payroll-factory/src/contract.rs
+++ b/contracts/external/cw-payroll-factory/src/contract.rs
@@ -9,7 +9,7 @@ use cosmwasm_std::{Addr, Coin};
 use cw2::set_contract_version;
 use cw20::Cw20ExecuteMsg;
 use cw20::Cw20ReceiveMsg;
-use cw_denom::CheckedDenom;
+use cw_denom::{CheckedDenom, UncheckedDenom};
 use cw_storage_plus::Bound;
 use cw_utils::{nonpayable, parse_reply_instantiate_data};
 use cw_vesting::msg::{
@@ -93,6 +93,10 @@ pub fn execute_receive_cw20(
                     expected: instantiate_msg.total,
                 });
             }
+            // Only the token to be vested can attest that it was received.
+            if instantiate_msg.denom != UncheckedDenom::Cw20(info.sender.to_string()) {
+                return Err(ContractError::WrongToken {});
+            }
             instantiate_contract(deps, sender, None, instantiate_msg, label)
         }
     }
diff --git a/contracts/external/cw-payroll-factory/src/error.rs b/contracts/external/cw-payroll-factory/src/error.rs
index e251a2a..3a33ef5 100644
--- a/contracts/external/cw-payroll-factory/src/error.rs
+++ b/contracts/external/cw-payroll-factory/src/error.rs
@@ -28,4 +28,7 @@ pub enum ContractError {
 
     #[error("vesting contract vests ({expected}) tokens, funded with ({sent})")]
     WrongFundAmount { sent: Uint128, expected: Uint128 },
+
+    #[error("vesting contract does not vest the token it was funded with")]
+    WrongToken {},
 }
-- 
2.43.0


From b340e118fa0b536f778dfe3e8bf75b1d108ed019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 09/14] fix: admin factory keeps the expected address of an
 instantiation that re-enters it

---
 .../external/cw-admin-factory/src/contract.rs | 20 ++++++++++++-------
 .../external/cw-admin-factory/src/state.rs    |  6 +++++-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/contracts/external/cw-admin-factory/src/contract.rs b/contracts/external/cw-admin-factory/src/contract.rs
index d0ac8fc..ab10d7c 100644
--- a/contracts/external/cw-admin-factory/src/contract.rs
+++ b/contracts/external/cw-admin-factory/src/contract.rs
@@ -106,10 +106,10 @@ pub fn instantiate2_contract(
         }
     }
 
-    if let Some(expect) = expect {
-        let expect = deps.api.addr_validate(&expect)?;
-        EXPECT.save(deps.storage, &expect)?;
-    }
+    let expect = expect.map(|e| deps.api.addr_validate(&e)).transpose()?;
+    let mut expected = EXPECT.may_load(deps.storage)?.unwrap_or_default();
+    expected.push(expect);
+    EXPECT.save(deps.storage, &expected)?;
 
     // Instantiate the specified contract with factory as the admin.
     let instantiate = WasmMsg::Instantiate2 {
@@ -145,10 +145,16 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
             let contract_addr = deps.api.addr_validate(&res.contract_address)?;
 
             if msg_id == INSTANTIATE2_CONTRACT_REPLY_ID {
-                // If saved an expected address, verify it matches and clear it.
-                let expect = EXPECT.may_load(deps.storage)?;
-                if let Some(expect) = expect {
+                // Replies arrive innermost first, so this one belongs to the
+                // last entry. If it expects an address, verify it matches.
+                let mut expected = EXPECT.may_load(deps.storage)?.unwrap_or_default();
+                let expect = expected.pop().flatten();
+                if expected.is_empty() {
                     EXPECT.remove(deps.storage);
+                } else {
+                    EXPECT.save(deps.storage, &expected)?;
+                }
+                if let Some(expect) = expect {
                     if contract_addr != expect {
                         return Err(ContractError::UnexpectedContractAddress {
                             expected: expect.to_string(),
diff --git a/contracts/external/cw-admin-factory/src/state.rs b/contracts/external/cw-admin-factory/src/state.rs
index 9957a96..4170976 100644
--- a/contracts/external/cw-admin-factory/src/state.rs
+++ b/contracts/external/cw-admin-factory/src/state.rs
@@ -5,4 +5,8 @@ use cw_storage_plus::Item;
 pub const ADMIN: Item<Option<Addr>> = Item::new("admin");
 
 /// The expected instantiate2 address to validate in the reply.
-pub const EXPECT: Item<Addr> = Item::new("expect");
+///
+/// The contract being instantiated may itself instantiate another one through
+/// this factory before its own reply arrives, so this is a stack with one entry
+/// for each predictable instantiation in progress, the innermost last.
+pub const EXPECT: Item<Vec<Option<Addr>>> = Item::new("expect");
-- 
2.43.0


From 5459f5a0c5d4787ee89e8baae81d7ebca4b60aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 10/14] fix: the pending owner of a role collection can accept
 ownership

---
 contracts/external/cw721-roles/src/contract.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index e3f0719..3627bf2 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -55,8 +55,14 @@ pub fn execute(
     info: MessageInfo,
     msg: ExecuteMsg,
 ) -> Result<Response, ContractError> {
-    // Only owner / minter can execute
-    cw_ownable::assert_owner(deps.storage, &info.sender)?;
+    // Only owner / minter can execute. The one exception is the pending owner
+    // accepting ownership, which cw_ownable checks itself.
+    if !matches!(
+        msg,
+        ExecuteMsg::UpdateOwnership(cw_ownable::Action::AcceptOwnership)
+    ) {
+        cw_ownable::assert_owner(deps.storage, &info.sender)?;
+    }
 
     match msg {
         ExecuteMsg::Mint {
-- 
2.43.0


From 63981743c47654aa1543887c1c50ef466d04fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 11/14] fix: role hooks are told the old and new weight when a
 token's weight is lowered

---
 contracts/external/cw721-roles/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 3627bf2..3c69916 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -412,6 +412,8 @@ pub fn execute_update_token_weight(
 
                     // Subtract difference from the total
                     total = total.checked_sub(Uint64::from(weight_difference))?;
+                    // Set the diff for use in hooks
+                    diff = MemberDiff::new(token.clone().owner, old, Some(new_total_weight));
                 }
                 Ordering::Equal => return Err(ContractError::NoWeightChange {}),
             }
-- 
2.43.0


From c6b3f609f2fddf1bb8f7a3bbbb938332e27be741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 12/14] fix: a role token without weight can be burned after
 the owner's membership ended

---
 contracts/external/cw721-roles/src/contract.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 3c69916..2cb91ff 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -183,10 +183,12 @@ pub fn execute_burn(
 
     // Update member weights and total
     let owner_addr = deps.api.addr_validate(&owner.owner)?;
-    let old_weight = MEMBERS.load(deps.storage, &owner_addr)?;
+    // The owner is no member if only tokens without weight are left
+    let old_weight = MEMBERS.may_load(deps.storage, &owner_addr)?;
 
     // Subtract the nft weight from the member's old weight
     let new_weight = old_weight
+        .unwrap_or_default()
         .checked_sub(nft_info.extension.weight)
         .ok_or(ContractError::CannotBurn {})?;
 
@@ -196,7 +198,7 @@ pub fn execute_burn(
     // Check if the new weight is now zero
     if new_weight == 0 {
         // New weight is now None
-        diff = MemberDiff::new(owner.owner, Some(old_weight), None);
+        diff = MemberDiff::new(owner.owner, old_weight, None);
         // Remove owner from list of members
         MEMBERS.remove(deps.storage, &owner_addr, env.block.height)?;
     } else {
-- 
2.43.0


From f6d3b906784d146517cbf759cf7dbe06a83b1e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 13/14] fix: transferring a role token moves its weight to the
 new owner

---
 .../external/cw721-roles/src/contract.rs      | 68 +++++++++++++++++--
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 2cb91ff..719a7ff 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -1,8 +1,8 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    from_json, to_json_binary, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order, Response,
-    StdResult, SubMsg, Uint64,
+    from_json, to_json_binary, Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order,
+    Response, StdResult, Storage, SubMsg, Uint64,
 };
 use cw4::{
     Member, MemberChangedHookMsg, MemberDiff, MemberListResponse, MemberResponse,
@@ -236,9 +236,49 @@ pub fn execute_burn(
         .add_submessages(msgs))
 }
 
+/// Moves a token's weight from its old owner to its new owner, and prepares the
+/// messages that tell the hooks. The total weight stays the same.
+fn move_token_weight(
+    storage: &mut dyn Storage,
+    env: &Env,
+    from: &Addr,
+    to: &Addr,
+    weight: u64,
+) -> Result<Vec<SubMsg>, ContractError> {
+    if from == to {
+        return Ok(vec![]);
+    }
+
+    let old_from = MEMBERS.may_load(storage, from)?;
+    let new_from = old_from
+        .unwrap_or_default()
+        .checked_sub(weight)
+        .ok_or(ContractError::NegativeValue {})?;
+    // As when burning, an owner left without weight is no longer a member
+    let new_from = (new_from > 0).then_some(new_from);
+    match new_from {
+        Some(weight) => MEMBERS.save(storage, from, &weight, env.block.height)?,
+        None => MEMBERS.remove(storage, from, env.block.height)?,
+    }
+
+    let old_to = MEMBERS.may_load(storage, to)?;
+    let new_to = old_to.unwrap_or_default() + weight;
+    MEMBERS.save(storage, to, &new_to, env.block.height)?;
+
+    let diffs = MemberChangedHookMsg {
+        diffs: vec![
+            MemberDiff::new(from.clone(), old_from, new_from),
+            MemberDiff::new(to.clone(), old_to, Some(new_to)),
+        ],
+    };
+    Ok(HOOKS.prepare_hooks(storage, |h| {
+        diffs.clone().into_cosmos_msg(h).map(SubMsg::new)
+    })?)
+}
+
 pub fn execute_transfer(
     deps: DepsMut,
-    _env: Env,
+    env: Env,
     info: MessageInfo,
     recipient: String,
     token_id: String,
@@ -247,11 +287,21 @@ pub fn execute_transfer(
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
     // set owner and remove existing approvals
+    let old_owner = token.owner;
     token.owner = deps.api.addr_validate(&recipient)?;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
+    let msgs = move_token_weight(
+        deps.storage,
+        &env,
+        &old_owner,
+        &token.owner,
+        token.extension.weight,
+    )?;
+
     Ok(Response::new()
+        .add_submessages(msgs)
         .add_attribute("action", "transfer_nft")
         .add_attribute("sender", info.sender)
         .add_attribute("recipient", recipient)
@@ -260,7 +310,7 @@ pub fn execute_transfer(
 
 pub fn execute_send(
     deps: DepsMut,
-    _env: Env,
+    env: Env,
     info: MessageInfo,
     token_id: String,
     recipient_contract: String,
@@ -270,10 +320,19 @@ pub fn execute_send(
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
     // set owner and remove existing approvals
+    let old_owner = token.owner;
     token.owner = deps.api.addr_validate(&recipient_contract)?;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
+    let msgs = move_token_weight(
+        deps.storage,
+        &env,
+        &old_owner,
+        &token.owner,
+        token.extension.weight,
+    )?;
+
     let send = Cw721ReceiveMsg {
         sender: info.sender.to_string(),
         token_id: token_id.clone(),
@@ -281,6 +340,7 @@ pub fn execute_send(
     };
 
     Ok(Response::new()
+        .add_submessages(msgs)
         .add_message(send.into_cosmos_msg(recipient_contract.clone())?)
         .add_attribute("action", "send_nft")
         .add_attribute("sender", info.sender)
-- 
2.43.0


From 77de1e78e6134f1c40fcc468c52c4965280232b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 14/14] fix: initialize the staked total and balance when
 migrating cw20-stake from v1

v1 only sets them once tokens are staked; v2 expects them to be there, so
that a contract nobody had staked with yet was unusable after migrating.
---
 contracts/staking/cw20-stake/src/contract.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/contracts/staking/cw20-stake/src/contract.rs b/contracts/staking/cw20-stake/src/contract.rs
index 678eae3..c053b81 100644
--- a/contracts/staking/cw20-stake/src/contract.rs
+++ b/contracts/staking/cw20-stake/src/contract.rs
@@ -453,7 +453,7 @@ pub fn query_list_stakers(
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
-pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> Result<Response, ContractError> {
+pub fn migrate(deps: DepsMut, env: Env, msg: MigrateMsg) -> Result<Response, ContractError> {
     use cw20_stake_v1 as v1;
 
     let ContractVersion { version, .. } = get_contract_version(deps.storage)?;
@@ -480,6 +480,16 @@ pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> Result<Response, Co
             };
             CONFIG.save(deps.storage, &config)?;
 
+            // Unlike v1, v2 expects these to be set from the start (see
+            // `instantiate`). In v1 they are only set once tokens are
+            // staked.
+            if STAKED_TOTAL.may_load(deps.storage)?.is_none() {
+                STAKED_TOTAL.save(deps.storage, &Uint128::zero(), env.block.height)?;
+            }
+            if BALANCE.may_load(deps.storage)?.is_none() {
+                BALANCE.save(deps.storage, &Uint128::zero())?;
+            }
+
             Ok(Response::default())
         }
     }
-- 
2.43.0

