From e82068cd831daf8d9215512f2bfbbaa752248a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 01/34] fix: encode compact sizes 0xffff and 0xffffffff in
 their canonical form

The boundary values were written in the next larger form, so the id of a
transaction with a script or witness item of exactly 65535 bytes differed
from the one Bitcoin computes.
---
 crates/bitcoin/src/formatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bitcoin/src/formatter.rs b/crates/bitcoin/src/formatter.rs
index e7ad33b..3b34cf9 100644
--- a/crates/bitcoin/src/formatter.rs
+++ b/crates/bitcoin/src/formatter.rs
@@ -103,10 +103,10 @@ impl TryFormat for CompactUint {
     fn try_format<W: Writer>(&self, w: &mut W) -> Result<(), Error> {
         if self.value < 0xfd {
             (self.value as u8).try_format(w)?;
-        } else if self.value < u16::MAX as u64 {
+        } else if self.value <= u16::MAX as u64 {
             0xfd_u8.try_format(w)?;
             (self.value as u16).try_format(w)?;
-        } else if self.value < u32::MAX as u64 {
+        } else if self.value <= u32::MAX as u64 {
             0xfe_u8.try_format(w)?;
             (self.value as u32).try_format(w)?;
         } else {
-- 
2.43.0


From 35c55faf82b8844e26e41e7e092f5154ed7c8d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 02/34] fix: reject coinbase heights longer than four bytes
 instead of panicking

---
 crates/bitcoin/src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/bitcoin/src/parser.rs b/crates/bitcoin/src/parser.rs
index e684e66..56f6529 100644
--- a/crates/bitcoin/src/parser.rs
+++ b/crates/bitcoin/src/parser.rs
@@ -359,9 +359,13 @@ fn parse_transaction_input(raw_input: &[u8], version: i32) -> Result<(Transactio
             // version 2 transactions include a height as the first 4 bytes, see
             // https://github.com/bitcoin/bips/blob/master/bip-0034.mediawiki
             let height_size: u64 = parser.parse::<CompactUint>()?.value;
+            let mut buffer = [0u8; 4];
+            // fail if the height does not fit
+            if height_size > buffer.len() as u64 {
+                return Err(Error::MalformedTransaction);
+            }
             script_size = script_size.checked_sub(height_size + 1).ok_or(Error::EndOfFile)?;
 
-            let mut buffer = [0u8; 4];
             let bytes = parser.read(height_size as usize)?;
             buffer[..(height_size as usize)]
                 .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
-- 
2.43.0


From ea0b504c5ad8fbca63c12993a9b0c32ea723b779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 03/34] fix: reject script lengths whose end overflows instead
 of panicking

---
 crates/bitcoin/src/parser.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/bitcoin/src/parser.rs b/crates/bitcoin/src/parser.rs
index 56f6529..d27488a 100644
--- a/crates/bitcoin/src/parser.rs
+++ b/crates/bitcoin/src/parser.rs
@@ -248,14 +248,12 @@ impl BytesParser {
     /// Reads `bytes_count` from the bytes parser and moves the head
     /// Fails if there are not enough bytes to read
     pub(crate) fn read(&mut self, bytes_count: usize) -> Result<Vec<u8>, Error> {
-        let bytes = self
-            .raw_bytes
-            .get(self.position..self.position + bytes_count)
-            .ok_or(Error::EndOfFile)?;
-        self.position = self
+        let end = self
             .position
             .checked_add(bytes_count)
             .ok_or(Error::ArithmeticOverflow)?;
+        let bytes = self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?;
+        self.position = end;
         Ok(Vec::from(bytes))
     }
 }
-- 
2.43.0


From 56f68ad1e4a7d40b6f170f44a3223c083435f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 04/34] fix: reject merkle proofs with identical branches

Without this check, as made by Bitcoin Core, a proof over a tree whose tail
is duplicated was accepted with a transaction position and count that do not
exist in the block.
---
 crates/bitcoin/src/merkle.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/bitcoin/src/merkle.rs b/crates/bitcoin/src/merkle.rs
index 39a03f5..89317e5 100644
--- a/crates/bitcoin/src/merkle.rs
+++ b/crates/bitcoin/src/merkle.rs
@@ -228,7 +228,13 @@ impl MerkleProof {
 
         let left = self.traverse_and_extract(next_height, left_index, traversal)?;
         let right = if right_index < self.compute_partial_tree_width(next_height) {
-            self.traverse_and_extract(next_height, right_index, traversal)?
+            let right = self.traverse_and_extract(next_height, right_index, traversal)?;
+            if right == left {
+                // the left and right branches should never be identical, as the transaction
+                // hashes covered by them must each be unique (CVE-2012-2459)
+                return Err(Error::MalformedMerkleProof);
+            }
+            right
         } else {
             left
         };
-- 
2.43.0


From 2be9cf41d2cb6ca37ead2c099662be19fafb7756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 05/34] fix: keep comparing the fork's own height while sorting
 chains

---
 crates/btc-relay/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index c2937d2..631aea2 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -1156,7 +1156,7 @@ impl<T: Config> Pallet<T> {
         let fork_position: u32 = Self::get_chain_position_from_chain_id(fork.chain_id)?;
         // check if the previous element in Chains has a lower block_height
         let mut current_position = fork_position;
-        let mut current_height = fork.max_height;
+        let current_height = fork.max_height;
 
         // swap elements as long as previous block height is smaller
         while current_position > 0 {
@@ -1207,9 +1207,8 @@ impl<T: Config> Pallet<T> {
                     Self::swap_chain(prev_position, current_position);
                 }
 
-                // update the current chain to the previous one
+                // the fork is now at the previous position
                 current_position = prev_position;
-                current_height = prev_height;
             } else {
                 break;
             }
-- 
2.43.0


From de85a79340de98b815948a5675c2390d32cbd966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 06/34] fix: find the last retarget of a fork on the chain it
 forked off from

---
 crates/btc-relay/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index 631aea2..1ea4029 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -994,8 +994,15 @@ impl<T: Config> Pallet<T> {
     /// * `chain_id` - BlockChain identifier
     /// * `block_height` - current block height
     fn get_last_retarget_time(chain_id: u32, block_height: u32) -> Result<u64, DispatchError> {
-        let block_chain = Self::get_block_chain_from_id(chain_id)?;
+        let mut block_chain = Self::get_block_chain_from_id(chain_id)?;
         let period_start_height = block_height - DIFFICULTY_ADJUSTMENT_INTERVAL;
+        // if the chain forked off after the period started, the period's first block
+        // is on (an ancestor of) the chain that it forked off from
+        while block_chain.start_height > period_start_height {
+            let fork_header = Self::get_block_header_from_height(&block_chain, block_chain.start_height)?;
+            let parent_header = Self::get_block_header_from_hash(fork_header.block_header.hash_prev_block)?;
+            block_chain = Self::get_block_chain_from_id(parent_header.chain_id)?;
+        }
         let last_retarget_header = Self::get_block_header_from_height(&block_chain, period_start_height)?;
         Ok(last_retarget_header.block_header.timestamp as u64)
     }
-- 
2.43.0


From 1ef0836a7f9955eaa141e64fa10f497b3945392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:16 +0000
Subject: [PATCH 07/34] fix: remove a btc_swap order when it is executed

The same order could be executed again with the same proof, paying out the
deposits of other orders.
---
 contracts/btc_swap/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/btc_swap/lib.rs b/contracts/btc_swap/lib.rs
index a97ea4f..581a36e 100755
--- a/contracts/btc_swap/lib.rs
+++ b/contracts/btc_swap/lib.rs
@@ -126,6 +126,8 @@ mod btc_swap {
 
             assert!(transferred_sats >= order.min_satoshis);
 
+            // an order is settled only once
+            self.orders.remove(counterparty);
             self.env().transfer(caller, order.plancks).unwrap();
         }
     }
-- 
2.43.0


From b6ee81d13ada9b98cd56c97fd961b1de1eb1c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:16 +0000
Subject: [PATCH 08/34] fix: return the deposit of a replaced btc_swap order

A second order of the same account overwrote the first one, and the funds
locked in it could never leave the contract.
---
 contracts/btc_swap/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/contracts/btc_swap/lib.rs b/contracts/btc_swap/lib.rs
index 581a36e..6d2202c 100755
--- a/contracts/btc_swap/lib.rs
+++ b/contracts/btc_swap/lib.rs
@@ -109,6 +109,10 @@ mod btc_swap {
                 min_satoshis,
                 plancks: offer,
             };
+            // an order replaces the previous one, whose deposit is returned
+            if let Some(replaced) = self.orders.take(caller) {
+                self.env().transfer(caller, replaced.plancks).unwrap();
+            }
             self.orders.insert(caller, &order);
         }
 
-- 
2.43.0


From 084cad17e373199c238d3cad1d4d5f396ef453af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:16 +0000
Subject: [PATCH 09/34] fix: refuse an invalid bitcoin address in the contract
 extension

A contract could panic the runtime by passing bytes that are no address.
---
 parachain/runtime/kintsugi/src/contracts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parachain/runtime/kintsugi/src/contracts.rs b/parachain/runtime/kintsugi/src/contracts.rs
index 0c5d778..76d381b 100644
--- a/parachain/runtime/kintsugi/src/contracts.rs
+++ b/parachain/runtime/kintsugi/src/contracts.rs
@@ -230,7 +230,8 @@ impl ChainExtension<Runtime> for BtcRelayExtension {
                 let (unchecked_proof, btc_address): (FullTransactionProof, Vec<u8>) =
                     env.read_as_unbounded(env.in_len())?;
 
-                let btc_address = Decode::decode(&mut &btc_address[..]).unwrap();
+                let btc_address = Decode::decode(&mut &btc_address[..])
+                    .map_err(|_| DispatchError::Other("ChainExtension received an invalid bitcoin address"))?;
                 let sats: Option<u64> =
                     btc_relay::Pallet::<Runtime>::get_and_verify_issue_payment::<Balance>(unchecked_proof, btc_address)
                         .ok()
-- 
2.43.0


From f1c432a9f73ab88eba39353787a1df879d335e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 10/34] fix: settle slashes in the staking pool that is
 withdrawn from

---
 crates/staking/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/staking/src/lib.rs b/crates/staking/src/lib.rs
index 61a7583..527bc88 100644
--- a/crates/staking/src/lib.rs
+++ b/crates/staking/src/lib.rs
@@ -378,7 +378,7 @@ impl<T: Config> Pallet<T> {
         amount: SignedFixedPoint<T>,
     ) -> DispatchResult {
         let nonce = Self::nonce(vault_id);
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         checked_add_mut!(Stake<T>, nonce, (vault_id, nominator_id), &amount);
         checked_add_mut!(TotalStake<T>, nonce, vault_id, &amount);
@@ -601,10 +601,10 @@ impl<T: Config> Pallet<T> {
     }
 
     fn apply_slash(
+        nonce: T::Nonce,
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<SignedFixedPoint<T>, DispatchError> {
-        let nonce = Self::nonce(vault_id);
         let stake = Self::stake_at_index(nonce, vault_id, nominator_id);
         let slash_per_token = Self::slash_per_token_at_index(nonce, vault_id);
         let slash_tally = Self::slash_tally_at_index(nonce, vault_id, nominator_id);
@@ -630,7 +630,7 @@ impl<T: Config> Pallet<T> {
         index: Option<T::Nonce>,
     ) -> DispatchResult {
         let nonce = index.unwrap_or(Self::nonce(vault_id));
-        let stake = Self::apply_slash(vault_id, nominator_id)?;
+        let stake = Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         if amount.is_zero() {
             return Ok(());
@@ -696,7 +696,7 @@ impl<T: Config> Pallet<T> {
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<<SignedFixedPoint<T> as FixedPointNumber>::Inner, DispatchError> {
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         let reward = Self::compute_reward_at_index(nonce, currency_id, vault_id, nominator_id)?;
         let reward_as_fixed = SignedFixedPoint::<T>::checked_from_integer(reward).ok_or(Error::<T>::TryIntoIntError)?;
-- 
2.43.0


From 9b9f2e0c516f0f01580adb51a682004eea12a16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 11/34] fix: do not charge rewards of a completely slashed
 stake to a new one

---
 crates/staking/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/staking/src/lib.rs b/crates/staking/src/lib.rs
index 527bc88..0770686 100644
--- a/crates/staking/src/lib.rs
+++ b/crates/staking/src/lib.rs
@@ -378,7 +378,7 @@ impl<T: Config> Pallet<T> {
         amount: SignedFixedPoint<T>,
     ) -> DispatchResult {
         let nonce = Self::nonce(vault_id);
-        Self::apply_slash(nonce, vault_id, nominator_id)?;
+        let settled_stake = Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         checked_add_mut!(Stake<T>, nonce, (vault_id, nominator_id), &amount);
         checked_add_mut!(TotalStake<T>, nonce, vault_id, &amount);
@@ -398,7 +398,10 @@ impl<T: Config> Pallet<T> {
                 let reward_per_token = Self::reward_per_token(currency_id, (nonce, vault_id));
                 let reward_per_token_mul_amount =
                     reward_per_token.checked_mul(&amount).ok_or(ArithmeticError::Overflow)?;
-                *reward_tally = reward_tally
+                // a stake that has been slashed completely lost its unclaimed rewards,
+                // but the rewards it already received are not a debt of the new stake
+                let max_reward_tally = settled_stake.saturating_mul(reward_per_token);
+                *reward_tally = cmp::min(*reward_tally, max_reward_tally)
                     .checked_add(&reward_per_token_mul_amount)
                     .ok_or(ArithmeticError::Overflow)?;
                 Ok::<_, DispatchError>(())
-- 
2.43.0


From aeab22220562db9e533e33411853b47cf0611576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 12/34] fix: count refunded nominations only once in the total
 collateral

---
 crates/nomination/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/nomination/src/lib.rs b/crates/nomination/src/lib.rs
index 843afb2..fab7592 100644
--- a/crates/nomination/src/lib.rs
+++ b/crates/nomination/src/lib.rs
@@ -254,7 +254,11 @@ impl<T: Config> Pallet<T> {
         amount.unlock_on(&vault_id.account_id)?;
         amount.transfer(&vault_id.account_id, &nominator_id)?;
 
-        ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        // NOTE: the collateral in stale staking pools was already subtracted from
+        // the total when the nominators were refunded in `opt_out_of_nomination`
+        if index == nonce {
+            ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        }
 
         Self::deposit_event(Event::<T>::WithdrawCollateral {
             vault_id: vault_id.clone(),
-- 
2.43.0


From 019ffd25b67961f8ad5457bcddd73d8aec2bc56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 13/34] fix: report zero issuable tokens in the wrapped
 currency

---
 crates/vault-registry/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index c89e03a..763a5ee 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1778,7 +1778,7 @@ impl<T: Config> Pallet<T> {
         // make sure the vault accepts new issue requests.
         // NOTE: get_vaults_with_issuable_tokens depends on this check
         if vault.data.status != VaultStatus::Active(true) {
-            Ok(Amount::new(0u32.into(), vault_id.currencies.collateral))
+            Ok(Amount::new(0u32.into(), vault_id.currencies.wrapped))
         } else {
             vault.issuable_tokens()
         }
-- 
2.43.0


From 6ed1093300dcbc01059ee03a4d8355944ccd35b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 14/34] fix: pay the premium from what collateral the vault has
 left

---
 crates/vault-registry/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index 763a5ee..91ff37b 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1262,7 +1262,9 @@ impl<T: Config> Pallet<T> {
                     redeemed_amount: tokens.amount(),
                 });
             } else {
-                Self::transfer_funds(
+                // the vault may have lost collateral since the redeem was requested, which
+                // must not prevent it from executing the request
+                let paid_premium = Self::transfer_funds_saturated(
                     CurrencySource::Collateral(vault_id.clone()),
                     CurrencySource::FreeBalance(redeemer_id.clone()),
                     premium,
@@ -1271,7 +1273,7 @@ impl<T: Config> Pallet<T> {
                 Self::deposit_event(Event::<T>::RedeemTokensPremium {
                     vault_id: vault_id.clone(),
                     redeemed_amount: tokens.amount(),
-                    collateral: premium.amount(),
+                    collateral: paid_premium.amount(),
                     user_id: redeemer_id.clone(),
                 });
             }
-- 
2.43.0


From 83740adb5c18544204ebf3d1f5b6a435f923235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 15/34] fix: restore the reward stake of a recovered vault

---
 crates/vault-registry/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index 91ff37b..dfc59a8 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -387,6 +387,9 @@ pub mod pallet {
             // Vault accepts new issues by default
             vault.set_accept_new_issues(true)?;
 
+            // the vault is rewarded again for its remaining collateral
+            PoolManager::<T>::on_vault_settings_change(&vault_id)?;
+
             Ok(())
         }
     }
-- 
2.43.0


From 0ad50502837798ae95e9ac8c3a0332df95016e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 16/34] fix: take the collateral of a liquidated vault out of
 the capacity pool

---
 crates/vault-registry/src/pool_manager.rs | 2 +-
 crates/vault-registry/src/types.rs        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/vault-registry/src/pool_manager.rs b/crates/vault-registry/src/pool_manager.rs
index 3cce4e1..65a9f86 100644
--- a/crates/vault-registry/src/pool_manager.rs
+++ b/crates/vault-registry/src/pool_manager.rs
@@ -76,7 +76,7 @@ impl<T: Config> PoolManager<T> {
         Self::update_capacity_stake(vault_id.collateral_currency())
     }
 
-    fn update_capacity_stake(currency_id: CurrencyId<T>) -> Result<(), DispatchError> {
+    pub(crate) fn update_capacity_stake(currency_id: CurrencyId<T>) -> Result<(), DispatchError> {
         let total_reward_stake = ext::reward::total_current_stake::<T>(currency_id)?;
         let new_capacity_stake = total_reward_stake.convert_to(T::GetWrappedCurrencyId::get())?;
 
diff --git a/crates/vault-registry/src/types.rs b/crates/vault-registry/src/types.rs
index cb57a18..b02b7c7 100644
--- a/crates/vault-registry/src/types.rs
+++ b/crates/vault-registry/src/types.rs
@@ -626,6 +626,7 @@ impl<T: Config> RichVault<T> {
 
         // withdraw stake from the reward pool
         ext::reward::set_stake::<T>(&vault_id, &Amount::zero(vault_id.wrapped_currency()))?;
+        PoolManager::<T>::update_capacity_stake(vault_id.collateral_currency())?;
 
         // Update vault: clear to_be_issued & issued_tokens, but don't touch to_be_redeemed
         let _ = self.update(|v| {
-- 
2.43.0


From 2bb3f4923b207ded6ea18d6fb0807f461a9cc48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 17/34] fix: refuse a liquidation redeem of zero tokens

---
 crates/redeem/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/redeem/src/lib.rs b/crates/redeem/src/lib.rs
index 7d60e1c..2ffca61 100644
--- a/crates/redeem/src/lib.rs
+++ b/crates/redeem/src/lib.rs
@@ -566,6 +566,8 @@ impl<T: Config> Pallet<T> {
             amount_wrapped.le(&redeemer_balance)?,
             Error::<T>::AmountExceedsUserBalance
         );
+        // burning nothing must not claim any collateral
+        ensure!(!amount_wrapped.is_zero(), Error::<T>::AmountBelowDustAmount);
 
         amount_wrapped.lock_on(&redeemer)?;
         amount_wrapped.burn_from(&redeemer)?;
-- 
2.43.0


From 1bd01e7534ed541187c466e90f3772c98cd74952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 18/34] fix: let collateral move within the system regardless
 of the ceiling

---
 crates/vault-registry/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index dfc59a8..6856789 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -980,11 +980,11 @@ impl<T: Config> Pallet<T> {
                 amount.lock_on(&to.account_id())?;
             }
             CurrencySource::LiquidatedCollateral(VaultId { ref currencies, .. }) => {
-                Self::try_increase_total_backing_collateral(currencies, amount)?;
+                Self::increase_total_backing_collateral(currencies, amount)?;
                 amount.lock_on(&to.account_id())?;
             }
             CurrencySource::LiquidationVault(ref currencies) => {
-                Self::try_increase_total_backing_collateral(currencies, amount)?;
+                Self::increase_total_backing_collateral(currencies, amount)?;
                 let mut liquidation_vault = Self::get_rich_liquidation_vault(currencies);
                 liquidation_vault.increase_collateral(amount)?;
                 amount.lock_on(&to.account_id())?;
@@ -1510,6 +1510,17 @@ impl<T: Config> Pallet<T> {
         let limit = Self::get_collateral_ceiling(currency_pair)?;
         ensure!(new.le(&limit)?, Error::<T>::CurrencyCeilingExceeded);
 
+        Self::increase_total_backing_collateral(currency_pair, amount)
+    }
+
+    // NOTE: does not check the ceiling, which limits new collateral only and
+    // must not prevent moving collateral that is already in the system
+    fn increase_total_backing_collateral(
+        currency_pair: &DefaultVaultCurrencyPair<T>,
+        amount: &Amount<T>,
+    ) -> DispatchResult {
+        let new = Self::get_total_user_vault_collateral(currency_pair)?.checked_add(&amount)?;
+
         TotalUserVaultCollateral::<T>::insert(currency_pair, new.amount());
 
         Self::deposit_event(Event::<T>::IncreaseLockedCollateral {
-- 
2.43.0


From bf8a3823fe016c075e8b1d994719e68899db673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:24 +0000
Subject: [PATCH 19/34] fix: cancel a replace whose collateral can not be
 released

---
 crates/replace/src/ext.rs | 4 ++++
 crates/replace/src/lib.rs | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/replace/src/ext.rs b/crates/replace/src/ext.rs
index 62457cf..75b517c 100644
--- a/crates/replace/src/ext.rs
+++ b/crates/replace/src/ext.rs
@@ -132,6 +132,10 @@ pub(crate) mod vault_registry {
         <vault_registry::Pallet<T>>::force_withdraw_collateral(vault_id, amount)
     }
 
+    pub fn compute_collateral<T: crate::Config>(vault_id: &DefaultVaultId<T>) -> Result<Amount<T>, DispatchError> {
+        <vault_registry::Pallet<T>>::compute_collateral(vault_id)
+    }
+
     pub fn is_allowed_to_withdraw_collateral<T: crate::Config>(
         vault_id: &DefaultVaultId<T>,
         amount: Option<Amount<T>>,
diff --git a/crates/replace/src/lib.rs b/crates/replace/src/lib.rs
index d3a1c90..bce2f7e 100644
--- a/crates/replace/src/lib.rs
+++ b/crates/replace/src/lib.rs
@@ -587,9 +587,12 @@ impl<T: Config> Pallet<T> {
         )?;
 
         // if the new_vault locked additional collateral especially for this replace,
-        // release it if it does not cause them to be undercollateralized
+        // release it if it does not cause them to be undercollateralized. Note that if it can
+        // not be released for any reason, the request must still be cancelled
         if !ext::vault_registry::is_vault_liquidated::<T>(&new_vault_id)?
-            && ext::vault_registry::is_allowed_to_withdraw_collateral::<T>(&new_vault_id, Some(collateral.clone()))?
+            && ext::vault_registry::is_allowed_to_withdraw_collateral::<T>(&new_vault_id, Some(collateral.clone()))
+                .unwrap_or(false)
+            && ext::vault_registry::compute_collateral::<T>(&new_vault_id)?.ge(&collateral)?
         {
             ext::vault_registry::force_withdraw_collateral::<T>(&new_vault_id, &collateral)?;
         }
-- 
2.43.0


From 64318630e05c5e4ed5921e325075989b7819da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 20/34] fix: round up the lend tokens burned by a redemption

---
 crates/loans/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index e1f4d83..8c9148c 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -977,7 +977,7 @@ pub mod pallet {
             ensure!(!redeem_amount.is_zero(), Error::<T>::InvalidAmount);
 
             let underlying = Amount::<T>::new(redeem_amount, asset_id);
-            let voucher = underlying.to_lend_token()?;
+            let voucher = Self::lend_tokens_worth_at_least(&underlying)?;
 
             Self::do_redeem(&who, &underlying, &voucher)?;
 
@@ -1247,7 +1247,8 @@ pub mod pallet {
 
             let underlying = Amount::new(redeem_amount, asset_id);
 
-            Self::do_redeem(&from, &underlying, &underlying.to_lend_token()?)?;
+            let voucher = Self::lend_tokens_worth_at_least(&underlying)?;
+            Self::do_redeem(&from, &underlying, &voucher)?;
 
             underlying.transfer(&from, &receiver)?;
 
@@ -1764,6 +1765,16 @@ impl<T: Config> Pallet<T> {
         Err(Error::<T>::InsufficientLiquidity.into())
     }
 
+    /// The smallest amount of lend tokens that is worth at least the given amount of the underlying currency.
+    /// Rounding in favor of the pool, such that a redemption never decreases the exchange rate.
+    fn lend_tokens_worth_at_least(underlying: &Amount<T>) -> Result<Amount<T>, DispatchError> {
+        let voucher = underlying.to_lend_token()?;
+        if voucher.to_underlying()?.lt(underlying)? {
+            return voucher.checked_add(&Amount::new(One::one(), voucher.currency()));
+        }
+        Ok(voucher)
+    }
+
     /// Transferrable balance in the pallet account (`free - frozen`)
     fn get_total_cash(asset_id: CurrencyId<T>) -> Amount<T> {
         // for the reducible_balance arguments, see:
-- 
2.43.0


From 7d5cd9241b02cfeec691e7760925a0e018e31b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 21/34] fix: distribute the borrower's reward before a
 liquidation reduces the debt

---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 8c9148c..c9b6dca 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1596,7 +1596,7 @@ impl<T: Config> Pallet<T> {
 
         // update borrow index after accrue interest.
         Self::update_reward_borrow_index(liquidation_asset_id)?;
-        Self::distribute_borrower_reward(liquidation_asset_id, liquidator)?;
+        Self::distribute_borrower_reward(liquidation_asset_id, borrower)?;
 
         // 1.liquidator repays borrower's debt,
         // transfer from liquidator to module account
-- 
2.43.0


From 08c34e74250acb39feff56fb10d61564557431e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 22/34] fix: liquidate the last debt of a market despite
 rounding

---
 crates/loans/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index c9b6dca..8da8491 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1605,7 +1605,8 @@ impl<T: Config> Pallet<T> {
         // 2.the system reduces borrower's debt
         let account_borrows_new =
             Self::current_borrow_balance(borrower, liquidation_asset_id)?.checked_sub(&repayment)?;
-        let total_borrows_new = Self::total_borrows(liquidation_asset_id).checked_sub(&repayment)?;
+        // saturating, since the total is rounded down and may be less than the sum of the debts
+        let total_borrows_new = Self::total_borrows(liquidation_asset_id).saturating_sub(&repayment)?;
         AccountBorrows::<T>::insert(
             liquidation_asset_id,
             borrower,
-- 
2.43.0


From 422fbfe1803a5315eb435b61920228887e914ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 23/34] fix: accounts with a shortfall can not borrow, however
 little

---
 crates/loans/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 8da8491..a04ded6 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1760,7 +1760,9 @@ impl<T: Config> Pallet<T> {
     /// `account`: account that needs a liquidity check
     /// `reduce_amount`: amount to reduce the liquidity (collateral) of the `account` by
     fn ensure_liquidity(account: &T::AccountId, reduce_amount: Amount<T>) -> DispatchResult {
-        if Self::get_account_liquidity(account)?.liquidity().ge(&reduce_amount)? {
+        let account_liquidity = Self::get_account_liquidity(account)?;
+        // even an amount with a value of zero can not be taken out by an account with a shortfall
+        if account_liquidity.shortfall().is_zero() && account_liquidity.liquidity().ge(&reduce_amount)? {
             return Ok(());
         }
         Err(Error::<T>::InsufficientLiquidity.into())
-- 
2.43.0


From f709c34758aa85120c721a601e0bcd58a9d3c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 24/34] fix: check the incentive reserved factor an updated
 market gets

---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index a04ded6..0ae644c 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -775,7 +775,7 @@ pub mod pallet {
                 Error::<T>::InvalidFactor
             );
             ensure!(
-                market.liquidate_incentive_reserved_factor < Ratio::one(),
+                liquidate_incentive_reserved_factor < Ratio::one(),
                 Error::<T>::InvalidFactor,
             );
             ensure!(supply_cap > Zero::zero(), Error::<T>::InvalidSupplyCap);
-- 
2.43.0


From 93be8aff8e641fb3b6f5941de62504eea1a9d41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 25/34] fix: refuse a jump rate model without a rate at zero
 utilization

---
 crates/loans/src/rate_model.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/loans/src/rate_model.rs b/crates/loans/src/rate_model.rs
index 80af6aa..7787176 100644
--- a/crates/loans/src/rate_model.rs
+++ b/crates/loans/src/rate_model.rs
@@ -137,6 +137,10 @@ impl JumpModel {
         if self.base_rate > self.jump_rate || self.jump_rate > self.full_rate {
             return false;
         }
+        // there is no borrow rate at a utilization of zero otherwise
+        if self.jump_utilization.is_zero() {
+            return false;
+        }
 
         true
     }
-- 
2.43.0


From 35e6b4551ce951cdd89d2e138e4e71b88d39db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:49 +0000
Subject: [PATCH 26/34] fix: refuse swaps along a path which would lower a
 pair's invariant

The amounts of a swap are computed from the reserves before the swap. A path
that uses a pair repeatedly executed its later hops with amounts which are
too large for the actual reserves, at the expense of the liquidity providers.
---
 crates/dex-general/src/swap/mod.rs | 35 ++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/crates/dex-general/src/swap/mod.rs b/crates/dex-general/src/swap/mod.rs
index ddddf6c..1832a18 100644
--- a/crates/dex-general/src/swap/mod.rs
+++ b/crates/dex-general/src/swap/mod.rs
@@ -558,6 +558,10 @@ impl<T: Config> Pallet<T> {
 
             let pair_account = Self::pair_account_id(asset_0, asset_1);
 
+            // the amounts are computed from the reserves before the swap, which
+            // differ from the actual reserves if the path uses a pair repeatedly
+            Self::ensure_invariant(input, output, &pair_account, amounts[i], amounts[i + 1])?;
+
             if i < (amounts.len() - 2) {
                 let mid_account = Self::pair_account_id(output, path[i + 2]);
                 Self::pair_swap(asset_0, asset_1, &pair_account, amount0_out, amount1_out, &mid_account)?;
@@ -568,6 +572,37 @@ impl<T: Config> Pallet<T> {
         Ok(())
     }
 
+    /// Ensure that taking `amount_out` does not decrease the product of the pair's
+    /// reserves, where `amount_in` has been transferred to the pair already.
+    fn ensure_invariant(
+        input: T::AssetId,
+        output: T::AssetId,
+        pair_account: &T::AccountId,
+        amount_in: AssetBalance,
+        amount_out: AssetBalance,
+    ) -> DispatchResult {
+        let reserve_in = T::MultiCurrency::free_balance(input, pair_account);
+        let reserve_out = T::MultiCurrency::free_balance(output, pair_account);
+
+        let reserve_in_before_swap = reserve_in.checked_sub(amount_in).ok_or(Error::<T>::Overflow)?;
+        let reserve_out_after_swap = reserve_out
+            .checked_sub(amount_out)
+            .ok_or(Error::<T>::InsufficientPairReserve)?;
+
+        let invariant_before_swap = U256::from(reserve_in_before_swap)
+            .checked_mul(U256::from(reserve_out))
+            .ok_or(Error::<T>::Overflow)?;
+        let invariant_after_swap = U256::from(reserve_in)
+            .checked_mul(U256::from(reserve_out_after_swap))
+            .ok_or(Error::<T>::Overflow)?;
+
+        ensure!(
+            invariant_after_swap >= invariant_before_swap,
+            Error::<T>::InvariantCheckFailed
+        );
+        Ok(())
+    }
+
     fn pair_swap(
         asset_0: T::AssetId,
         asset_1: T::AssetId,
-- 
2.43.0


From 514c2a8a052cc2f1f4224467eeb8a39f87ff8450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 27/34] fix: mint the protocol fee before computing the shares
 of removed liquidity

The shares were taken of the supply before the protocol's fee was minted,
so whoever removed first did not bear the fee, at the expense of the others.
---
 crates/dex-general/src/swap/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/dex-general/src/swap/mod.rs b/crates/dex-general/src/swap/mod.rs
index 1832a18..d38f191 100644
--- a/crates/dex-general/src/swap/mod.rs
+++ b/crates/dex-general/src/swap/mod.rs
@@ -157,14 +157,6 @@ impl<T: Config> Pallet<T> {
                 let reserve_0 = T::MultiCurrency::free_balance(asset_0, &parameter.pair_account);
                 let reserve_1 = T::MultiCurrency::free_balance(asset_1, &parameter.pair_account);
 
-                let amount_0 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_0);
-                let amount_1 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_1);
-
-                ensure!(
-                    amount_0 >= amount_0_min && amount_1 >= amount_1_min,
-                    Error::<T>::InsufficientTargetAmount
-                );
-
                 let lp_asset_id = Self::lp_pairs(pair).ok_or(Error::<T>::InsufficientAssetBalance)?;
 
                 let mint_fee = Self::mint_protocol_fee(reserve_0, reserve_1, asset_0, asset_1, parameter.total_supply)?;
@@ -178,6 +170,14 @@ impl<T: Config> Pallet<T> {
                     }
                 }
 
+                let amount_0 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_0);
+                let amount_1 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_1);
+
+                ensure!(
+                    amount_0 >= amount_0_min && amount_1 >= amount_1_min,
+                    Error::<T>::InsufficientTargetAmount
+                );
+
                 parameter.total_supply = parameter
                     .total_supply
                     .checked_sub(remove_liquidity)
-- 
2.43.0


From b3f66333cabeb9190dc16b4aca8273e68b677a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 28/34] fix: check the index of the input in
 swap_pool_from_base

An index beyond the base pool's currencies panicked in the runtime.
---
 crates/dex-stable/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dex-stable/src/lib.rs b/crates/dex-stable/src/lib.rs
index 18cfb5f..572289c 100644
--- a/crates/dex-stable/src/lib.rs
+++ b/crates/dex-stable/src/lib.rs
@@ -1406,7 +1406,9 @@ impl<T: Config> Pallet<T> {
         let base_pool_len = base_pool.currency_ids.len();
 
         let mut base_amounts = vec![Balance::default(); base_pool_len];
-        base_amounts[in_index as usize] = dx;
+        *base_amounts
+            .get_mut(in_index as usize)
+            .ok_or(Error::<T>::CurrencyIndexOutRange)? = dx;
 
         let base_lp_amount = Self::inner_add_liquidity(who, base_pool_id, &base_amounts, 0, who)?;
 
-- 
2.43.0


From 988e802ba199727d6cbcd59c5bbd0ee9980593e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 29/34] fix: honour min_dy and the recipient when swapping to a
 base pool's lp currency

swap_pool_from_base with the base pool's lp currency as output ignored both
the least amount and the recipient, and reported that nothing came out.
---
 crates/dex-stable/src/lib.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/crates/dex-stable/src/lib.rs b/crates/dex-stable/src/lib.rs
index 572289c..59fb7c2 100644
--- a/crates/dex-stable/src/lib.rs
+++ b/crates/dex-stable/src/lib.rs
@@ -1410,22 +1410,22 @@ impl<T: Config> Pallet<T> {
             .get_mut(in_index as usize)
             .ok_or(Error::<T>::CurrencyIndexOutRange)? = dx;
 
-        let base_lp_amount = Self::inner_add_liquidity(who, base_pool_id, &base_amounts, 0, who)?;
-
-        let mut out_amount: Balance = 0;
-        if base_pool_lp_currency_in_meta_index != (out_index as usize) {
-            out_amount = Self::inner_swap(
-                who,
-                meta_pool_id,
-                base_pool_lp_currency_in_meta_index,
-                out_index as usize,
-                base_lp_amount,
-                min_dy,
-                to,
-            )?;
+        // the lp currency of the base pool itself is wanted
+        if base_pool_lp_currency_in_meta_index == (out_index as usize) {
+            return Self::inner_add_liquidity(who, base_pool_id, &base_amounts, min_dy, to);
         }
 
-        Ok(out_amount)
+        let base_lp_amount = Self::inner_add_liquidity(who, base_pool_id, &base_amounts, 0, who)?;
+
+        Self::inner_swap(
+            who,
+            meta_pool_id,
+            base_pool_lp_currency_in_meta_index,
+            out_index as usize,
+            base_lp_amount,
+            min_dy,
+            to,
+        )
     }
 
     fn inner_swap_pool_to_base(
-- 
2.43.0


From 8277e97b1e92c1315c355d8b0e45b7e66f6d04fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:44 +0000
Subject: [PATCH 30/34] fix: a minute has 60 seconds

BASE_CACHE_EXPIRE_TIME is 10 minutes, but a meta pool used its cached price
of the base pool's lp currency for 10 hours.
---
 crates/dex-stable/src/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dex-stable/src/primitives.rs b/crates/dex-stable/src/primitives.rs
index aaad83f..4c25bea 100644
--- a/crates/dex-stable/src/primitives.rs
+++ b/crates/dex-stable/src/primitives.rs
@@ -23,7 +23,7 @@ pub const POOL_TOKEN_COMMON_DECIMALS: u32 = 18;
 pub const DAY: u32 = 86400;
 pub const MIN_RAMP_TIME: u32 = DAY;
 
-pub const MINUTE: u64 = 3600;
+pub const MINUTE: u64 = 60;
 pub const BASE_CACHE_EXPIRE_TIME: u64 = 10 * MINUTE;
 
 // max_a with precision
-- 
2.43.0


From d9eb8d20bb57e4af8b5b236aee8cc7f51091f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:47 +0000
Subject: [PATCH 31/34] fix: the total voting power follows the locks

SlopeChanges holds how much the total slope decreases where locks end, but
was computed with the signs of the original contract, whose slope changes
are negative: with unsigned balances it stayed at zero and the slope of an
expired lock was never taken off the total. A chain which has used the old
code should rebuild SlopeChanges and the last point from its locks.
---
 crates/escrow/src/lib.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/escrow/src/lib.rs b/crates/escrow/src/lib.rs
index 31cbf2b..1bdbb97 100644
--- a/crates/escrow/src/lib.rs
+++ b/crates/escrow/src/lib.rs
@@ -442,7 +442,7 @@ impl<T: Config> Pallet<T> {
             };
             let height_diff = T::BlockNumberToBalance::convert(t_i.saturating_sub(last_checkpoint));
             last_point.bias.saturating_reduce(last_point.slope * height_diff);
-            last_point.slope.saturating_accrue(d_slope);
+            last_point.slope.saturating_reduce(d_slope);
             last_checkpoint = t_i;
             last_point.ts = t_i;
             epoch.saturating_inc();
@@ -456,24 +456,23 @@ impl<T: Config> Pallet<T> {
 
         <Epoch<T>>::put(epoch);
 
-        last_point
-            .slope
-            .saturating_accrue(u_new.slope.saturating_sub(u_old.slope));
-        last_point.bias.saturating_accrue(u_new.bias.saturating_sub(u_old.bias));
+        // balances are unsigned, so add the new before subtracting the old
+        last_point.slope = last_point.slope.saturating_add(u_new.slope).saturating_sub(u_old.slope);
+        last_point.bias = last_point.bias.saturating_add(u_new.bias).saturating_sub(u_old.bias);
         <PointHistory<T>>::insert(epoch, last_point);
 
-        // schedule the slope change
+        // schedule the slope change, this is how much the slope decreases at the end of the lock
         if old_locked.end > now {
-            old_dslope.saturating_accrue(u_old.slope);
+            old_dslope.saturating_reduce(u_old.slope);
             if new_locked.end == old_locked.end {
                 // new deposit
-                old_dslope = old_dslope.saturating_sub(u_new.slope);
+                old_dslope.saturating_accrue(u_new.slope);
             }
             <SlopeChanges<T>>::insert(old_locked.end, old_dslope);
         }
 
         if new_locked.end > now && new_locked.end > old_locked.end {
-            new_dslope = new_dslope.saturating_sub(u_new.slope);
+            new_dslope.saturating_accrue(u_new.slope);
             <SlopeChanges<T>>::insert(new_locked.end, new_dslope);
         }
 
@@ -606,7 +605,7 @@ impl<T: Config> Pallet<T> {
                 break;
             }
 
-            last_point.slope.saturating_accrue(d_slope);
+            last_point.slope.saturating_reduce(d_slope);
             last_point.ts = t_i;
         }
 
-- 
2.43.0


From 22284d2d604854542fcd27dc62a83bbc45bf8711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:47 +0000
Subject: [PATCH 32/34] fix: farming schedules leave distributed rewards to be
 claimed

Creating or extending a schedule spread the farm's whole balance, and
removing one took it back to the treasury, including what had been
distributed to the farmers and not been claimed.
---
 crates/farming/src/lib.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/farming/src/lib.rs b/crates/farming/src/lib.rs
index 17afa32..a9f5cca 100644
--- a/crates/farming/src/lib.rs
+++ b/crates/farming/src/lib.rs
@@ -43,7 +43,7 @@ use primitives::CurrencyId;
 use reward::RewardsApi;
 use scale_info::TypeInfo;
 use sp_runtime::{
-    traits::{AccountIdConversion, AtLeast32Bit, CheckedDiv, Saturating, Zero},
+    traits::{AccountIdConversion, AtLeast32Bit, CheckedAdd, CheckedDiv, Saturating, Zero},
     ArithmeticError, DispatchError,
 };
 use sp_std::vec::Vec;
@@ -232,8 +232,14 @@ pub mod pallet {
                     .period_count
                     .checked_add(period_count)
                     .ok_or(ArithmeticError::Overflow)?;
-                let total_free = T::MultiCurrency::free_balance(reward_currency_id, &pool_account_id);
-                let total_per_period = total_free.checked_div(&total_period_count.into()).unwrap_or_default();
+                // the pool account also holds rewards which have been distributed but not claimed yet
+                let total_amount = reward_schedule
+                    .total()
+                    .and_then(|remaining| remaining.checked_add(&amount))
+                    .ok_or(ArithmeticError::Overflow)?;
+                let total_per_period = total_amount
+                    .checked_div(&total_period_count.into())
+                    .unwrap_or_default();
 
                 reward_schedule.period_count = total_period_count;
                 reward_schedule.per_period = total_per_period;
@@ -261,14 +267,15 @@ pub mod pallet {
             ensure_root(origin)?;
             pool_currency_id.sort();
 
-            // transfer unspent rewards to treasury
+            // transfer unspent rewards to treasury, those which have been
+            // distributed already stay in the pool account to be claimed
             let treasury_account_id = T::TreasuryAccountId::get();
             let pool_account_id = Self::pool_account_id(&pool_currency_id);
             T::MultiCurrency::transfer(
                 reward_currency_id,
                 &pool_account_id,
                 &treasury_account_id,
-                T::MultiCurrency::free_balance(reward_currency_id, &pool_account_id),
+                Self::total_rewards(&pool_currency_id, &reward_currency_id),
             )?;
 
             RewardSchedules::<T>::remove(pool_currency_id, reward_currency_id);
-- 
2.43.0


From 158b0f14cbb40f48dc0ee8843261b114821c311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:47 +0000
Subject: [PATCH 33/34] fix: clearing the public proposals returns their
 deposits

Deposits stayed reserved forever and the preimages held.
---
 crates/democracy/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/democracy/src/lib.rs b/crates/democracy/src/lib.rs
index ceb7c63..bfc84f6 100644
--- a/crates/democracy/src/lib.rs
+++ b/crates/democracy/src/lib.rs
@@ -545,7 +545,16 @@ pub mod pallet {
         #[pallet::weight(T::WeightInfo::clear_public_proposals())]
         pub fn clear_public_proposals(origin: OriginFor<T>) -> DispatchResult {
             ensure_root(origin)?;
-            <PublicProps<T>>::kill();
+            for (prop_index, proposal, _) in <PublicProps<T>>::take() {
+                // since we placed a `hold` on propose
+                // we should now unrequest the data
+                T::Preimages::drop(&proposal);
+                if let Some((depositors, deposit)) = <DepositOf<T>>::take(prop_index) {
+                    for who in depositors.into_iter() {
+                        T::Currency::unreserve(&who, deposit);
+                    }
+                }
+            }
             Ok(())
         }
 
-- 
2.43.0


From 75a6583f7b08434bc01b25c27888b6c47f2309e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:47 +0000
Subject: [PATCH 34/34] fix: a candidate who is invulnerable collates once

---
 crates/collator-selection/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/collator-selection/src/lib.rs b/crates/collator-selection/src/lib.rs
index 7a801cc..83501e0 100644
--- a/crates/collator-selection/src/lib.rs
+++ b/crates/collator-selection/src/lib.rs
@@ -416,6 +416,8 @@ pub mod pallet {
         /// This is done on the fly, as frequent as we are told to do so, as the session manager.
         pub fn assemble_collators(candidates: BoundedVec<T::AccountId, T::MaxCandidates>) -> Vec<T::AccountId> {
             let mut collators = Self::invulnerables().to_vec();
+            // a candidate may have been made invulnerable since
+            let candidates = candidates.into_iter().filter(|who| !collators.contains(who)).collect::<Vec<_>>();
             collators.extend(candidates);
             collators
         }
-- 
2.43.0

