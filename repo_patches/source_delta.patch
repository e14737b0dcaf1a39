From cb484387724acca741bc51b12ef4168c682d028e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:34 +0000
Subject: [PATCH 01/13] fix: a vetoed approver proposal rejects the submission
 it was about

---
 .../pre-propose/dao-pre-propose-approver/src/contract.rs      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
index 268d3ba..e2d306c 100644
--- a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
+++ b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
@@ -170,7 +170,7 @@ pub fn execute_proposal_completed(
 
     // On completion send rejection or approval message
     let msg = match new_status {
-        Status::Closed => Some(WasmMsg::Execute {
+        Status::Closed | Status::Vetoed => Some(WasmMsg::Execute {
             contract_addr: approval_contract.into_string(),
             msg: to_json_binary(&PreProposeApprovalExecuteMsg::Extension {
                 msg: ApprovalExt::Reject { id: pre_propose_id },
@@ -187,7 +187,7 @@ pub fn execute_proposal_completed(
         _ => None,
     };
 
-    // If Status is not Executed or Closed, throw error
+    // If Status is not Executed, Closed or Vetoed, throw error
     match msg {
         Some(msg) => Ok(Response::default()
             .add_message(msg)
-- 
2.43.0


From f4eea94d1e69b8043da6cd89050c7899a65f8677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 02/13] fix: the value of a large stake can be queried

---
 contracts/staking/cw20-stake/src/contract.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/contracts/staking/cw20-stake/src/contract.rs b/contracts/staking/cw20-stake/src/contract.rs
index 64af748..4b71992 100644
--- a/contracts/staking/cw20-stake/src/contract.rs
+++ b/contracts/staking/cw20-stake/src/contract.rs
@@ -398,11 +398,7 @@ pub fn query_staked_value(
             value: Uint128::zero(),
         })
     } else {
-        let value = staked
-            .checked_mul(balance)
-            .map_err(StdError::overflow)?
-            .checked_div(total)
-            .map_err(StdError::divide_by_zero)?;
+        let value = math::amount_to_claim(total, balance, staked);
         Ok(StakedValueResponse { value })
     }
 }
-- 
2.43.0


From e566ecf023f39437a2ead7e3ea0a658e35e6363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 03/13] fix: the new owner of a role collection can accept it

---
 contracts/external/cw721-roles/src/contract.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index e3f0719..eb02373 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -55,8 +55,11 @@ pub fn execute(
     info: MessageInfo,
     msg: ExecuteMsg,
 ) -> Result<Response, ContractError> {
-    // Only owner / minter can execute
-    cw_ownable::assert_owner(deps.storage, &info.sender)?;
+    // Only owner / minter can execute. Changes of ownership are checked where they
+    // are made, as a new owner accepts before it is the owner.
+    if !matches!(msg, ExecuteMsg::UpdateOwnership(_)) {
+        cw_ownable::assert_owner(deps.storage, &info.sender)?;
+    }
 
     match msg {
         ExecuteMsg::Mint {
-- 
2.43.0


From 6f2ea3281cd6c8d0ef0a9c833db6c5ecd28c0117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:22 +0000
Subject: [PATCH 04/13] fix: role tokens without weight can be burned

---
 contracts/external/cw721-roles/src/contract.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index eb02373..4b67fde 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -180,7 +180,10 @@ pub fn execute_burn(
 
     // Update member weights and total
     let owner_addr = deps.api.addr_validate(&owner.owner)?;
-    let old_weight = MEMBERS.load(deps.storage, &owner_addr)?;
+    // A holder of no weight is not a member
+    let old_weight = MEMBERS
+        .may_load(deps.storage, &owner_addr)?
+        .unwrap_or_default();
 
     // Subtract the nft weight from the member's old weight
     let new_weight = old_weight
-- 
2.43.0


From 1a6239dab8ce53cf339e67bed88b402308b2a2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 05/13] fix: the weight of a role token moves with it

---
 .../external/cw721-roles/src/contract.rs      | 76 +++++++++++++++++--
 1 file changed, 68 insertions(+), 8 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 4b67fde..c4dbebf 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -1,8 +1,8 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    from_json, to_json_binary, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order, Response,
-    StdResult, SubMsg, Uint64,
+    from_json, to_json_binary, Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order,
+    Response, StdResult, SubMsg, Uint64,
 };
 use cw4::{
     Member, MemberChangedHookMsg, MemberDiff, MemberListResponse, MemberResponse,
@@ -234,9 +234,51 @@ pub fn execute_burn(
         .add_submessages(msgs))
 }
 
-pub fn execute_transfer(
+/// Moves a token's weight along with the token. Returns the hook
+/// messages for this change.
+fn move_weight(
     deps: DepsMut,
-    _env: Env,
+    env: &Env,
+    from: &Addr,
+    to: &Addr,
+    weight: u64,
+) -> Result<Vec<SubMsg>, ContractError> {
+    if from == to {
+        return Ok(vec![]);
+    }
+
+    let old_from = MEMBERS.may_load(deps.storage, from)?;
+    let new_from = old_from
+        .unwrap_or_default()
+        .checked_sub(weight)
+        .ok_or(ContractError::NegativeValue {})?;
+    // As when burning, a holder of no weight is not a member
+    let new_from = if new_from == 0 {
+        MEMBERS.remove(deps.storage, from, env.block.height)?;
+        None
+    } else {
+        MEMBERS.save(deps.storage, from, &new_from, env.block.height)?;
+        Some(new_from)
+    };
+
+    let old_to = MEMBERS.may_load(deps.storage, to)?;
+    let new_to = old_to.unwrap_or_default() + weight;
+    MEMBERS.save(deps.storage, to, &new_to, env.block.height)?;
+
+    let diffs = MemberChangedHookMsg {
+        diffs: vec![
+            MemberDiff::new(from.clone(), old_from, new_from),
+            MemberDiff::new(to.clone(), old_to, Some(new_to)),
+        ],
+    };
+    Ok(HOOKS.prepare_hooks(deps.storage, |h| {
+        diffs.clone().into_cosmos_msg(h).map(SubMsg::new)
+    })?)
+}
+
+pub fn execute_transfer(
+    mut deps: DepsMut,
+    env: Env,
     info: MessageInfo,
     recipient: String,
     token_id: String,
@@ -244,12 +286,21 @@ pub fn execute_transfer(
     let contract = Cw721Roles::default();
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
+    let recipient_addr = deps.api.addr_validate(&recipient)?;
+    let msgs = move_weight(
+        deps.branch(),
+        &env,
+        &token.owner,
+        &recipient_addr,
+        token.extension.weight,
+    )?;
     // set owner and remove existing approvals
-    token.owner = deps.api.addr_validate(&recipient)?;
+    token.owner = recipient_addr;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
     Ok(Response::new()
+        .add_submessages(msgs)
         .add_attribute("action", "transfer_nft")
         .add_attribute("sender", info.sender)
         .add_attribute("recipient", recipient)
@@ -257,8 +308,8 @@ pub fn execute_transfer(
 }
 
 pub fn execute_send(
-    deps: DepsMut,
-    _env: Env,
+    mut deps: DepsMut,
+    env: Env,
     info: MessageInfo,
     token_id: String,
     recipient_contract: String,
@@ -267,8 +318,16 @@ pub fn execute_send(
     let contract = Cw721Roles::default();
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
+    let recipient_addr = deps.api.addr_validate(&recipient_contract)?;
+    let msgs = move_weight(
+        deps.branch(),
+        &env,
+        &token.owner,
+        &recipient_addr,
+        token.extension.weight,
+    )?;
     // set owner and remove existing approvals
-    token.owner = deps.api.addr_validate(&recipient_contract)?;
+    token.owner = recipient_addr;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
@@ -279,6 +338,7 @@ pub fn execute_send(
     };
 
     Ok(Response::new()
+        .add_submessages(msgs)
         .add_message(send.into_cosmos_msg(recipient_contract.clone())?)
         .add_attribute("action", "send_nft")
         .add_attribute("sender", info.sender)
-- 
2.43.0


From d498f0f019e23a8a7aea5b21691d312fe0254c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:02 +0000
Subject: [PATCH 06/13] fix: hooks are told when the weight of a role token
 falls

---
 contracts/external/cw721-roles/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index c4dbebf..bfc33dc 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -472,6 +472,8 @@ pub fn execute_update_token_weight(
 
                     // Subtract difference from the total
                     total = total.checked_sub(Uint64::from(weight_difference))?;
+                    // Set the diff for use in hooks
+                    diff = MemberDiff::new(token.clone().owner, old, Some(new_total_weight));
                 }
                 Ordering::Equal => return Err(ContractError::NoWeightChange {}),
             }
-- 
2.43.0


From 5089a665cbc0cb110c111e4cd1623a597cfd0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 07/13] fix: frequent updates do not slow linear rewards down

---
 .../dao-rewards-distributor/src/contract.rs   |  2 +-
 .../dao-rewards-distributor/src/rewards.rs    |  2 +-
 .../dao-rewards-distributor/src/state.rs      | 40 +++++++++++++------
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/contracts/distribution/dao-rewards-distributor/src/contract.rs b/contracts/distribution/dao-rewards-distributor/src/contract.rs
index c9d2955..2a60d38 100644
--- a/contracts/distribution/dao-rewards-distributor/src/contract.rs
+++ b/contracts/distribution/dao-rewards-distributor/src/contract.rs
@@ -462,7 +462,7 @@ fn execute_fund_linear(
     if continuous && previously_funded && was_expired {
         distribution.active_epoch.total_earned_puvp =
             get_active_total_earned_puvp(deps.as_ref(), &env.block, &distribution)?;
-        distribution.active_epoch.bump_last_updated(&env.block);
+        distribution.active_epoch.bump_last_updated(&env.block)?;
     }
 
     DISTRIBUTIONS.save(deps.storage, distribution.id, &distribution)?;
diff --git a/contracts/distribution/dao-rewards-distributor/src/rewards.rs b/contracts/distribution/dao-rewards-distributor/src/rewards.rs
index da231ce..957dce9 100644
--- a/contracts/distribution/dao-rewards-distributor/src/rewards.rs
+++ b/contracts/distribution/dao-rewards-distributor/src/rewards.rs
@@ -33,7 +33,7 @@ pub fn update_rewards(
     // first update the active epoch earned puvp value up to the current block
     distribution.active_epoch.total_earned_puvp =
         get_active_total_earned_puvp(deps.as_ref(), &env.block, &distribution)?;
-    distribution.active_epoch.bump_last_updated(&env.block);
+    distribution.active_epoch.bump_last_updated(&env.block)?;
 
     // then calculate the total applicable puvp, which is the sum of historical
     // rewards earned puvp and the active epoch total earned puvp we just
diff --git a/contracts/distribution/dao-rewards-distributor/src/state.rs b/contracts/distribution/dao-rewards-distributor/src/state.rs
index 9095e91..62e3701 100644
--- a/contracts/distribution/dao-rewards-distributor/src/state.rs
+++ b/contracts/distribution/dao-rewards-distributor/src/state.rs
@@ -6,7 +6,7 @@ use cosmwasm_std::{
 use cw20::{Denom, Expiration};
 use cw_storage_plus::{Item, Map};
 use cw_utils::Duration;
-use std::{cmp::min, collections::HashMap};
+use std::{cmp::min, collections::HashMap, ops::Add};
 
 use crate::{
     helpers::{get_total_voting_power_at_block, scale_factor, DurationExt, ExpirationExt},
@@ -149,23 +149,39 @@ impl Epoch {
     /// current block and ends_at since rewards cannot be distributed after
     /// ends_at. this is necessary in the case that a future funding backfills
     /// rewards after they've finished distributing. in order to compute over
-    /// the missed space, last_updated can never be greater than ends_at. if
+    /// the missed space, last_updated can never be greater than ends_at. it
+    /// only moves by complete periods of a linear emission, since only those
+    /// have been distributed: frequent updates would otherwise lose the part of
+    /// a period that had passed, and emit less than the configured rate. if
     /// ends_at is never, the epoch must be paused, so it should never be
     /// updated.
-    pub fn bump_last_updated(&mut self, current_block: &BlockInfo) {
-        match self.ends_at {
-            Expiration::Never {} => {
-                self.last_updated_total_earned_puvp = Expiration::Never {};
-            }
+    pub fn bump_last_updated(&mut self, current_block: &BlockInfo) -> Result<(), ContractError> {
+        let until = match self.ends_at {
+            Expiration::Never {} => Expiration::Never {},
             Expiration::AtHeight(ends_at_height) => {
-                self.last_updated_total_earned_puvp =
-                    Expiration::AtHeight(std::cmp::min(current_block.height, ends_at_height));
+                Expiration::AtHeight(min(current_block.height, ends_at_height))
             }
             Expiration::AtTime(ends_at_time) => {
-                self.last_updated_total_earned_puvp =
-                    Expiration::AtTime(std::cmp::min(current_block.time, ends_at_time));
+                Expiration::AtTime(min(current_block.time, ends_at_time))
             }
-        }
+        };
+
+        self.last_updated_total_earned_puvp = match (&self.emission_rate, until) {
+            (
+                EmissionRate::Linear { duration, .. },
+                Expiration::AtHeight(_) | Expiration::AtTime(_),
+            ) => {
+                let periods = until
+                    .duration_since(&self.last_updated_total_earned_puvp)?
+                    .checked_div(duration)?;
+                let periods = Uint64::try_from(periods).map_err(StdError::from)?.u64();
+                self.last_updated_total_earned_puvp
+                    .add(*duration * periods)?
+            }
+            (_, until) => until,
+        };
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 7bfda212057cd3acdb1e21824c07d43a6d72d0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 08/13] fix: the remainder of linear rewards carries over to
 the next funding

---
 .../distribution/dao-rewards-distributor/src/contract.rs     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/distribution/dao-rewards-distributor/src/contract.rs b/contracts/distribution/dao-rewards-distributor/src/contract.rs
index 2a60d38..286a146 100644
--- a/contracts/distribution/dao-rewards-distributor/src/contract.rs
+++ b/contracts/distribution/dao-rewards-distributor/src/contract.rs
@@ -428,8 +428,11 @@ fn execute_fund_linear(
             // last updated block is reset to the new start block below
         }
 
+        // what was funded before and too little for another period carries over
+        let undistributed = distribution.get_undistributed_rewards(&env.block)?;
+
         // reset all starting fields since a new distribution is starting
-        distribution.funded_amount = amount;
+        distribution.funded_amount = undistributed.checked_add(amount)?;
         distribution.active_epoch.started_at = match distribution.active_epoch.emission_rate {
             EmissionRate::Paused {} => Expiration::Never {},
             EmissionRate::Immediate {} => Expiration::Never {},
-- 
2.43.0


From 5ac83e3f1da3e48e05e801f9792e151439d0e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:44 +0000
Subject: [PATCH 09/13] fix: shares of a distribution are of the power at its
 height

---
 contracts/distribution/cw-fund-distributor/src/contract.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/distribution/cw-fund-distributor/src/contract.rs b/contracts/distribution/cw-fund-distributor/src/contract.rs
index c5539d1..7162b37 100644
--- a/contracts/distribution/cw-fund-distributor/src/contract.rs
+++ b/contracts/distribution/cw-fund-distributor/src/contract.rs
@@ -47,7 +47,7 @@ pub fn instantiate(
     let total_power: voting::TotalPowerAtHeightResponse = deps.querier.query_wasm_smart(
         voting_contract.clone(),
         &voting::Query::TotalPowerAtHeight {
-            height: Some(env.block.height),
+            height: Some(msg.distribution_height),
         },
     )?;
     // validate the total power and store it
@@ -57,7 +57,7 @@ pub fn instantiate(
     TOTAL_POWER.save(deps.storage, &total_power.power)?;
 
     Ok(Response::default()
-        .add_attribute("distribution_height", env.block.height.to_string())
+        .add_attribute("distribution_height", msg.distribution_height.to_string())
         .add_attribute("voting_contract", voting_contract)
         .add_attribute("total_power", total_power.power))
 }
-- 
2.43.0


From d52f761b32f43947585c9dc891cfb62127087ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 10/13] fix: a redistribution is by the power at its own height

---
 .../cw-fund-distributor/src/contract.rs       | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/contracts/distribution/cw-fund-distributor/src/contract.rs b/contracts/distribution/cw-fund-distributor/src/contract.rs
index 7162b37..a4774ae 100644
--- a/contracts/distribution/cw-fund-distributor/src/contract.rs
+++ b/contracts/distribution/cw-fund-distributor/src/contract.rs
@@ -44,22 +44,35 @@ pub fn instantiate(
     let voting_contract = deps.api.addr_validate(&msg.voting_contract)?;
     VOTING_CONTRACT.save(deps.storage, &voting_contract)?;
 
-    let total_power: voting::TotalPowerAtHeightResponse = deps.querier.query_wasm_smart(
+    let total_power = query_total_power_at_height(
+        deps.as_ref(),
         voting_contract.clone(),
+        msg.distribution_height,
+    )?;
+    TOTAL_POWER.save(deps.storage, &total_power)?;
+
+    Ok(Response::default()
+        .add_attribute("distribution_height", msg.distribution_height.to_string())
+        .add_attribute("voting_contract", voting_contract)
+        .add_attribute("total_power", total_power))
+}
+
+/// the total power at the given height, which must not be zero
+fn query_total_power_at_height(
+    deps: Deps,
+    voting_contract: Addr,
+    height: u64,
+) -> Result<Uint128, ContractError> {
+    let total_power: voting::TotalPowerAtHeightResponse = deps.querier.query_wasm_smart(
+        voting_contract,
         &voting::Query::TotalPowerAtHeight {
-            height: Some(msg.distribution_height),
+            height: Some(height),
         },
     )?;
-    // validate the total power and store it
     if total_power.power.is_zero() {
         return Err(ContractError::ZeroVotingPower {});
     }
-    TOTAL_POWER.save(deps.storage, &total_power.power)?;
-
-    Ok(Response::default()
-        .add_attribute("distribution_height", msg.distribution_height.to_string())
-        .add_attribute("voting_contract", voting_contract)
-        .add_attribute("total_power", total_power.power))
+    Ok(total_power.power)
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
@@ -564,6 +577,12 @@ fn execute_redistribute_unclaimed_funds(
     // update the distribution height
     DISTRIBUTION_HEIGHT.save(deps.storage, &distribution_height)?;
 
+    // shares are of the total power at that height
+    let voting_contract = VOTING_CONTRACT.load(deps.storage)?;
+    let total_power =
+        query_total_power_at_height(deps.as_ref(), voting_contract, distribution_height)?;
+    TOTAL_POWER.save(deps.storage, &total_power)?;
+
     // get performed claims of cw20 and native tokens
     let performed_cw20_claims: Vec<Cw20ClaimEntry> = CW20_CLAIMS
         .range(deps.storage, None, None, Order::Descending)
-- 
2.43.0


From 722fd73bd9846cf6da1b9e9d90238bab432c529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:16 +0000
Subject: [PATCH 11/13] fix: slashed tokens are not withdrawable from a
 canceled payment

---
 contracts/external/cw-vesting/src/vesting.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/contracts/external/cw-vesting/src/vesting.rs b/contracts/external/cw-vesting/src/vesting.rs
index 50b9d7d..a350995 100644
--- a/contracts/external/cw-vesting/src/vesting.rs
+++ b/contracts/external/cw-vesting/src/vesting.rs
@@ -143,11 +143,16 @@ impl<'a> Payment<'a> {
                 //
                 // If a slash occurs while the contract is in a
                 // canceled state, the slash amount is deducted from
-                // `owner_withdrawable`. We don't count slashes that
-                // occured during the Funded state as those are
-                // considered when computing `owner_withdrawable`
-                // initially.
-                owner_withdrawable + (vesting.total() - vesting.claimed) - staked
+                // `owner_withdrawable`, and what exceeds it from the
+                // vestee's tokens. Slashes that occured during the
+                // Funded state were considered when computing
+                // `owner_withdrawable` initially, and reduce what is
+                // owed to the vestee:
+                //
+                // vesting_owed = vesting.total - vesting.claimed - vesting.slashed
+                let vesting_owed =
+                    (vesting.total() - vesting.claimed).saturating_sub(vesting.slashed);
+                owner_withdrawable + vesting_owed - staked
             }
         }
     }
-- 
2.43.0


From 33a29c4df5f3a6f269c50e31b5e900c06a06e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:01 +0000
Subject: [PATCH 12/13] fix: validators are counted although tokens are
 unbonding from them

---
 packages/cw-stake-tracker/src/lib.rs | 68 ++++++++++++++++------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/packages/cw-stake-tracker/src/lib.rs b/packages/cw-stake-tracker/src/lib.rs
index b9c6339..cbcba9a 100644
--- a/packages/cw-stake-tracker/src/lib.rs
+++ b/packages/cw-stake-tracker/src/lib.rs
@@ -58,16 +58,7 @@ impl<'a> StakeTracker<'a> {
     ) -> StdResult<()> {
         self.total_staked
             .increment(storage, (), t.seconds(), amount)?;
-        let old = self
-            .validators
-            .load(storage, validator.clone(), t.seconds())?
-            .unwrap_or_default();
-        if old.is_zero() && !amount.is_zero() {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
-        }
-        self.validators
-            .increment(storage, validator, t.seconds(), amount)?;
-        Ok(())
+        self.update_validator(storage, validator, t.seconds(), |staked| staked + amount)
     }
 
     /// Makes note of a redelegation. Note, this only supports
@@ -83,19 +74,8 @@ impl<'a> StakeTracker<'a> {
         dst: String,
         amount: Uint128,
     ) -> StdResult<()> {
-        let new = self
-            .validators
-            .decrement(storage, src, t.seconds(), amount)?;
-        if new.is_zero() {
-            self.cardinality.decrement(storage, (), t.seconds(), 1)?;
-        }
-        let new = self
-            .validators
-            .increment(storage, dst, t.seconds(), amount)?;
-        if new == amount {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
-        }
-        Ok(())
+        self.update_validator(storage, src, t.seconds(), |staked| staked - amount)?;
+        self.update_validator(storage, dst, t.seconds(), |staked| staked + amount)
     }
 
     pub fn on_undelegate(
@@ -112,15 +92,45 @@ impl<'a> StakeTracker<'a> {
             t.seconds() + unbonding_duration_seconds,
             amount,
         )?;
-        let new = self.validators.decrement(
+        self.update_validator(
             storage,
             validator,
             t.seconds() + unbonding_duration_seconds,
-            amount,
-        )?;
-        if new.is_zero() && !amount.is_zero() {
-            self.cardinality
-                .decrement(storage, (), t.seconds() + unbonding_duration_seconds, 1)?;
+            |staked| staked - amount,
+        )
+    }
+
+    /// Updates the tokens staked to `validator` at time `t` and all
+    /// times after. As tokens may be unbonding, the first tokens may
+    /// be staked, or the last removed, only at a time after `t`, so
+    /// each of these times is considered for the cardinality.
+    fn update_validator(
+        &self,
+        storage: &mut dyn Storage,
+        validator: String,
+        t: u64,
+        update: impl Fn(Uint128) -> Uint128,
+    ) -> StdResult<()> {
+        // the time from which on there is one more validator, or one less.
+        let mut gained = None;
+        let mut lost = None;
+        self.validators
+            .update(storage, validator, t, &mut |old, time| {
+                let new = update(old);
+                match (old.is_zero(), new.is_zero()) {
+                    (true, false) if gained.is_none() => gained = Some(time),
+                    (false, true) if lost.is_none() => lost = Some(time),
+                    _ => (),
+                }
+                new
+            })?;
+        // staked amounts never increase in the future (tokens only
+        // unbond), so once that is so it stays so.
+        if let Some(time) = gained {
+            self.cardinality.increment(storage, (), time, 1)?;
+        }
+        if let Some(time) = lost {
+            self.cardinality.decrement(storage, (), time, 1)?;
         }
         Ok(())
     }
-- 
2.43.0


From 7abcb050513a4887aeaf50d8d06ef6539c28ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 13/13] fix: failing hooks are removed without shifting the
 others

---
 packages/dao-hooks/src/proposal.rs | 10 ++++++++--
 packages/dao-hooks/src/vote.rs     |  9 +++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/packages/dao-hooks/src/proposal.rs b/packages/dao-hooks/src/proposal.rs
index c98cfdc..fb25855 100644
--- a/packages/dao-hooks/src/proposal.rs
+++ b/packages/dao-hooks/src/proposal.rs
@@ -40,7 +40,7 @@ pub fn new_proposal_hooks(
     ))?;
 
     let mut index: u64 = 0;
-    let messages = hooks.prepare_hooks(storage, |a| {
+    let mut messages = hooks.prepare_hooks(storage, |a| {
         let execute = WasmMsg::Execute {
             contract_addr: a.to_string(),
             msg: msg.clone(),
@@ -51,6 +51,9 @@ pub fn new_proposal_hooks(
         index += 1;
         Ok(tmp)
     })?;
+    // A hook that fails is removed by its index, so that the last hook
+    // comes first: the indices of those still to come stay valid.
+    messages.reverse();
 
     Ok(messages)
 }
@@ -77,7 +80,7 @@ pub fn proposal_status_changed_hooks(
         },
     ))?;
     let mut index: u64 = 0;
-    let messages = hooks.prepare_hooks(storage, |a| {
+    let mut messages = hooks.prepare_hooks(storage, |a| {
         let execute = WasmMsg::Execute {
             contract_addr: a.to_string(),
             msg: msg.clone(),
@@ -88,6 +91,9 @@ pub fn proposal_status_changed_hooks(
         index += 1;
         Ok(tmp)
     })?;
+    // A hook that fails is removed by its index, so that the last hook
+    // comes first: the indices of those still to come stay valid.
+    messages.reverse();
 
     Ok(messages)
 }
diff --git a/packages/dao-hooks/src/vote.rs b/packages/dao-hooks/src/vote.rs
index 9d5dedf..e22054b 100644
--- a/packages/dao-hooks/src/vote.rs
+++ b/packages/dao-hooks/src/vote.rs
@@ -29,7 +29,7 @@ pub fn new_vote_hooks(
         vote,
     }))?;
     let mut index: u64 = 0;
-    hooks.prepare_hooks(storage, |a| {
+    let mut messages = hooks.prepare_hooks(storage, |a| {
         let execute = WasmMsg::Execute {
             contract_addr: a.to_string(),
             msg: msg.clone(),
@@ -39,7 +39,12 @@ pub fn new_vote_hooks(
         let tmp = SubMsg::reply_on_error(execute, masked_index);
         index += 1;
         Ok(tmp)
-    })
+    })?;
+    // A hook that fails is removed by its index, so that the last hook
+    // comes first: the indices of those still to come stay valid.
+    messages.reverse();
+
+    Ok(messages)
 }
 
 #[cw_serde]
-- 
2.43.0

