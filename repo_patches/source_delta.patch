From 6e42f8542c0093d62be26231bfc1bfbfb0df2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 01/78] fix: penalize_many leaves the reputation set unchanged
 on error and adds up repeated identities

---
 reputation/src/trs.rs | 60 +++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/reputation/src/trs.rs b/reputation/src/trs.rs
index 81ec8d5..a68174b 100644
--- a/reputation/src/trs.rs
+++ b/reputation/src/trs.rs
@@ -205,35 +205,39 @@ where
         K: 'a,
     {
         let mut total_subtracted = V::default();
-        let mut to_subtract = ids_fs
-            .into_iter()
-            .filter_map(|(id, mut next_v)| {
-                let mut old_v = self.get(id);
-                // next_v returns the new value of v
-                let new_v = next_v(self.get(id));
-                match new_v.cmp(&old_v) {
-                    Ordering::Greater => {
-                        // Overflow: return error
-                        Some(Err(RepError {
-                            old_rep: old_v,
-                            new_rep: new_v,
-                        }))
-                    }
-                    Ordering::Equal => {
-                        // When there is no reputation to subtract, we can skip this identity
-                        None
-                    }
-                    Ordering::Less => {
-                        old_v -= new_v;
-                        let ts = old_v;
-                        total_subtracted += ts.clone();
-                        // Update cache. Cannot fail because we just checked for overflow
-                        decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
-                        Some(Ok((id.clone(), ts)))
-                    }
+        let mut to_subtract: HashMap<K, V, S> = HashMap::default();
+        for (id, mut next_v) in ids_fs {
+            let mut old_v = self.get(id);
+            if let Some(ts) = to_subtract.get(id) {
+                // The same identity may be penalized more than once
+                old_v -= ts.clone();
+            }
+            // next_v returns the new value of v
+            let new_v = next_v(old_v.clone());
+            match new_v.cmp(&old_v) {
+                Ordering::Greater => {
+                    // Overflow: return error. Nothing has been modified yet
+                    return Err(RepError {
+                        old_rep: old_v,
+                        new_rep: new_v,
+                    });
                 }
-            })
-            .collect::<Result<HashMap<K, V, S>, _>>()?;
+                Ordering::Equal => {
+                    // When there is no reputation to subtract, we can skip this identity
+                }
+                Ordering::Less => {
+                    old_v -= new_v;
+                    let ts = old_v;
+                    total_subtracted += ts.clone();
+                    *to_subtract.entry(id.clone()).or_default() += ts;
+                }
+            }
+        }
+
+        // Update cache. Cannot fail because we just checked for overflow
+        for (id, ts) in &to_subtract {
+            decrement_cache(&mut self.map, id.clone(), ts.clone()).unwrap();
+        }
 
         // Iterate back to front
         for (_, rep_diff) in self.queue.iter_mut().rev() {
-- 
2.43.0


From de185bb3caa317d4101bd87da86733fcb56a82fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 02/78] fix: export keys with a path of more than 47 levels to
 slip32

---
 crypto/src/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index 9ee256b..e032b00 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -214,11 +214,11 @@ impl ExtendedSK {
         })?;
 
         let capacity = 1     // 1 byte for depth
-            + 4 * depth      // 4 * depth bytes for path
+            + 4 * usize::from(depth) // 4 * depth bytes for path
             + 32             // 32 bytes for chain code
             + 33             // 33 bytes for 0x00 || private key
             ;
-        let mut bytes = Protected::new(vec![0; usize::from(capacity)]);
+        let mut bytes = Protected::new(vec![0; capacity]);
         let mut slice = bytes.as_mut();
 
         slice.write_all(&[depth])?;
-- 
2.43.0


From 92063643406e8f90d4bf2ddc6d23dfead9535226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 03/78] fix: refuse slip32 keys with an invalid private key
 prefix

---
 crypto/src/key.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypto/src/key.rs b/crypto/src/key.rs
index e032b00..5de3ba5 100644
--- a/crypto/src/key.rs
+++ b/crypto/src/key.rs
@@ -193,7 +193,11 @@ impl ExtendedSK {
         cursor.read_exact(chain_code.as_mut())?;
 
         let secret_prefix = cursor.read_u8()?;
-        debug_assert!(secret_prefix == 0);
+        if secret_prefix != 0 {
+            return Err(KeyError::Deserialization(format!(
+                "invalid private key prefix, expected: 0, got: {secret_prefix}",
+            )));
+        }
 
         let mut secret = Protected::new(vec![0; 32]);
         cursor.read_exact(secret.as_mut())?;
-- 
2.43.0


From a5d305ca7db29e137b2df5712158211f9936ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:19 +0000
Subject: [PATCH 04/78] fix: serialize ProtectedString as the string it is
 deserialized from

---
 protected/src/serde.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protected/src/serde.rs b/protected/src/serde.rs
index 358b7ef..84c4b3b 100644
--- a/protected/src/serde.rs
+++ b/protected/src/serde.rs
@@ -34,6 +34,6 @@ impl Serialize for ProtectedString {
     where
         S: Serializer,
     {
-        serializer.serialize_bytes(self.as_ref())
+        serializer.serialize_str(self.as_ref())
     }
 }
-- 
2.43.0


From d9ee7f19b7c0ab6cd0b8317575cc33e23a6718d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:41 +0000
Subject: [PATCH 05/78] fix: charge stake transactions the requested relative
 fee for their actual weight

---
 data_structures/src/transaction_factory.rs | 28 ++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index c844212..15c5d02 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -267,6 +267,7 @@ pub trait OutputsCollection {
                 current_weight = body.weight();
             }
             TransactionOutputs::Stake((stake_output, change)) => {
+                let change = Some(change.unwrap_or_default());
                 let body = StakeTransactionBody::new(inputs, stake_output, change);
                 output_value = body.value();
                 current_weight = body.weight();
@@ -295,10 +296,9 @@ pub trait OutputsCollection {
                 })
             }
             Fee::Relative(priority) => {
-                let absolute_fee = priority.into_absolute(current_weight);
-
-                let max_iterations = 1 + ((max_weight - current_weight) / INPUT_SIZE);
+                let max_iterations = 1 + (max_weight.saturating_sub(current_weight) / INPUT_SIZE);
                 for _i in 0..max_iterations {
+                    let absolute_fee = priority.into_absolute(current_weight);
                     let amount = output_value
                         .checked_add(absolute_fee.as_nanowits())
                         .ok_or(TransactionError::FeeOverflow)?;
@@ -327,6 +327,7 @@ pub trait OutputsCollection {
                             body.weight()
                         }
                         TransactionOutputs::Stake((stake_output, change)) => {
+                            let change = Some(change.unwrap_or_default());
                             let body = StakeTransactionBody::new(inputs, stake_output, change);
 
                             body.weight()
@@ -350,7 +351,26 @@ pub trait OutputsCollection {
                     }
                 }
 
-                unreachable!("Unexpected exit in build_inputs_outputs method");
+                // Every iteration adds at least one input, so the weight limit was exceeded
+                Err(match outputs {
+                    TransactionOutputs::DataRequest((dr_output, _)) => {
+                        TransactionError::DataRequestWeightLimitExceeded {
+                            weight: current_weight,
+                            max_weight,
+                            dr_output: Box::new(dr_output),
+                        }
+                    }
+                    TransactionOutputs::Stake(_) => TransactionError::StakeWeightLimitExceeded {
+                        weight: current_weight,
+                        max_weight,
+                    },
+                    TransactionOutputs::ValueTransfer(_) => {
+                        TransactionError::ValueTransferWeightLimitExceeded {
+                            weight: current_weight,
+                            max_weight,
+                        }
+                    }
+                })
             }
         }
     }
-- 
2.43.0


From 74191773b9825c0d3bf7462a5d08275adb8a21dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:26 +0000
Subject: [PATCH 06/78] fix: do not reserve the inputs of a stake transaction
 that exceeds the weight limit

---
 data_structures/src/transaction_factory.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index 15c5d02..703c9cb 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -857,13 +857,6 @@ pub fn build_st(
 
     let used_pointers = tx_info.inputs.pointers.iter().cloned().map(Input::new);
 
-    // Mark UTXOs as used so we don't double spend
-    // Save the timestamp after which the transaction will be considered timed out
-    // and the output will become available for spending it again
-    if !dry_run {
-        utxos.set_used_output_pointer(used_pointers.clone(), timestamp + tx_pending_timeout);
-    }
-
     // Only use a change output if there is value inserted by inputs that is not consumed by outputs
     // or fees
     let change_value = tx_info
@@ -881,7 +874,7 @@ pub fn build_st(
         None
     };
 
-    let inputs = used_pointers.collect::<Vec<_>>();
+    let inputs = used_pointers.clone().collect::<Vec<_>>();
     let body = StakeTransactionBody::new(inputs, output, change);
 
     let txn_weight = body.weight();
@@ -892,6 +885,13 @@ pub fn build_st(
         });
     }
 
+    // Mark UTXOs as used so we don't double spend
+    // Save the timestamp after which the transaction will be considered timed out
+    // and the output will become available for spending it again
+    if !dry_run {
+        utxos.set_used_output_pointer(used_pointers, timestamp + tx_pending_timeout);
+    }
+
     Ok(body)
 }
 
-- 
2.43.0


From e3ee413aeccd9037d176d5f35531db8bf0231c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 07/78] fix: keep the weights of the transactions pool right
 when clearing stake and unstake transactions

---
 data_structures/src/chain/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 883f4a6..b168050 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -2725,14 +2725,17 @@ impl TransactionsPool {
 
     /// Clear stake transactions in TransactionsPool
     pub fn clear_stake_transactions(&mut self) {
-        self.st_transactions.clear();
-        self.sorted_st_index.clear();
+        let hashes: Vec<Hash> = self.st_transactions.keys().copied().collect();
+        for hash in hashes.iter() {
+            self.st_remove_inner(hash, false);
+        }
     }
 
     /// Clear unstake transactions in TransactionsPool
     pub fn clear_unstake_transactions(&mut self) {
         self.ut_transactions.clear();
         self.sorted_ut_index.clear();
+        self.total_ut_weight = 0;
     }
 
     /// Returns `Ok(true)` if the pool already contains this transaction.
-- 
2.43.0


From a05d06ae0fe8d15ea043c62fc8f73712fcce78b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 08/78] fix: dropping an invalid stake transaction keeps the
 other transactions that spend its inputs

---
 data_structures/src/chain/mod.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index b168050..0249121 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3173,13 +3173,7 @@ impl TransactionsPool {
     /// Remove stake transactions that would result in overstaking on a validator
     pub fn remove_invalid_stake_transactions(&mut self, transactions: Vec<Hash>) {
         for st_tx_hash in transactions.iter() {
-            if let Some(st_tx) = self
-                .st_transactions
-                .get(st_tx_hash)
-                .map(|(_, st)| st.clone())
-            {
-                self.st_remove(&st_tx);
-            }
+            self.st_remove_inner(st_tx_hash, false);
         }
     }
 
-- 
2.43.0


From b5fc06947aec03cc230efad407b0ae135218443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:39 +0000
Subject: [PATCH 09/78] fix: keep the transactions pool under its weight limit
 when only stake and unstake transactions are left

---
 data_structures/src/chain/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 0249121..279f92f 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3291,7 +3291,19 @@ impl TransactionsPool {
             #[allow(clippy::cast_precision_loss)]
             let more_vtts_than_drs =
                 self.total_vt_weight as f64 >= self.total_dr_weight as f64 * self.vt_to_dr_factor;
-            if more_vtts_than_drs {
+            if self.vt_transactions.is_empty() && self.dr_transactions.is_empty() {
+                // Only stake and unstake transactions are left: remove the stake transaction with
+                // the lowest fee/weight, or the unstake transaction if there are no more stakes
+                let st_hash = self.sorted_st_index.iter().map(|(_, hash)| *hash).next();
+                let ut_hash = self.sorted_ut_index.iter().map(|(_, hash)| *hash).next();
+                if let Some(tx) = st_hash.and_then(|hash| self.st_remove_inner(&hash, false)) {
+                    removed_transactions.push(Transaction::Stake(tx));
+                } else if let Some(tx) = ut_hash.and_then(|hash| self.ut_remove_inner(&hash)) {
+                    removed_transactions.push(Transaction::Unstake(tx));
+                } else {
+                    break;
+                }
+            } else if more_vtts_than_drs {
                 // Remove the value transfer transaction with the lowest fee/weight
                 let tx_hash = self
                     .sorted_vt_index
@@ -3656,7 +3668,7 @@ impl TransactionsPool {
     }
 
     pub fn total_transactions_weight(&self) -> u64 {
-        self.total_vt_weight + self.total_dr_weight + self.total_st_weight
+        self.total_vt_weight + self.total_dr_weight + self.total_st_weight + self.total_ut_weight
     }
 }
 
-- 
2.43.0


From b53352f308bfea0d7388d3260d5c2fc66832f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 10/78] fix: judge the reward of a data request by its own
 collateral when it enters the transactions pool

---
 data_structures/src/chain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 279f92f..69c83fb 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3377,8 +3377,8 @@ impl TransactionsPool {
             }
             Transaction::DataRequest(dr_tx) => {
                 let dr_tx_reward_collateral_ratio = calculate_reward_collateral_ratio(
-                    self.collateral_minimum,
                     dr_tx.body.dr_output.collateral,
+                    self.collateral_minimum,
                     dr_tx.body.dr_output.witness_reward,
                 );
                 if dr_tx_reward_collateral_ratio > self.required_reward_collateral_ratio {
-- 
2.43.0


From 4b96674aa26af07b14cfce3d7417b9f9a9407995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 11/78] fix: a data request that is not served does not reserve
 the collateral of its commits

---
 data_structures/src/chain/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 69c83fb..a2adbf0 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3070,6 +3070,8 @@ impl TransactionsPool {
                         let n_commits = dr_output.witnesses as usize;
 
                         if commits.len() >= n_commits {
+                            // Inputs of the commitments selected for this data request
+                            let mut selected_inputs = HashSet::<Input>::new();
                             let filtered_commits: Vec<CommitTransaction> = commits
                                 .drain()
                                 .filter_map(|(_h, c)| {
@@ -3079,6 +3081,7 @@ impl TransactionsPool {
                                         for input in commit_tx.body.collateral.iter() {
                                             // Check that no Input from this or any other commitment is being spent twice
                                             if spent_inputs.contains(input)
+                                                || selected_inputs.contains(input)
                                                 || current_spent_inputs.contains(input)
                                             {
                                                 valid = false;
@@ -3088,9 +3091,9 @@ impl TransactionsPool {
                                             }
                                         }
                                         // Only mark the inputs of this commitment as used if all of them
-                                        // are valid and they will be returned by this function
+                                        // are valid
                                         if valid {
-                                            spent_inputs.extend(current_spent_inputs);
+                                            selected_inputs.extend(current_spent_inputs);
                                             Some(commit_tx)
                                         } else {
                                             None
@@ -3102,6 +3105,9 @@ impl TransactionsPool {
 
                             // Check once again that after filtering invalid commitments, we still have as many as requested
                             if filtered_commits.len() == n_commits {
+                                // These commitments will be returned by this function, so no other
+                                // data request can use their inputs
+                                spent_inputs.extend(selected_inputs);
                                 commits_vec.extend(filtered_commits);
                                 total_fee += dr_output.commit_and_reveal_fee * n_commits as u64;
                                 dr_pointer_vec.push(*dr_pointer);
-- 
2.43.0


From ee9a57507bdb7c9c0c76667cc050fe6c83408958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 12/78] fix: keep a data request that refuses a tally because
 it is not in tally stage

---
 data_structures/src/data_request.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/data_structures/src/data_request.rs b/data_structures/src/data_request.rs
index f2cf5bb..2c58bc9 100644
--- a/data_structures/src/data_request.rs
+++ b/data_structures/src/data_request.rs
@@ -248,6 +248,13 @@ impl DataRequestPool {
     ) -> Result<DataRequestInfo, anyhow::Error> {
         let dr_pointer = tally_tx.dr_pointer;
 
+        // Do not lose the data request if it does not accept a tally yet
+        if let Some(dr_state) = data_request_pool.get(&dr_pointer)
+            && dr_state.stage != DataRequestStage::TALLY
+        {
+            return Err(DataRequestError::NotTallyStage.into());
+        }
+
         let dr_state: Result<DataRequestState, anyhow::Error> =
             data_request_pool.remove(&dr_pointer).ok_or_else(|| {
                 DataRequestError::AddTallyFail {
-- 
2.43.0


From 1f7eadd5f3ffa720a58dcf42139e0a0322c462df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 13/78] fix: a first stake that is refused leaves no entry in
 the stakes tracker

---
 data_structures/src/staking/stakes.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index cf7a301..d6dcf6c 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -226,16 +226,15 @@ where
 
         // Find or create a matching stake entry
         let stake_found = self.by_key.contains_key(&key);
-        let stake = self
-            .by_key
-            .entry(key.clone())
-            .or_insert(SyncStakeEntry::from(StakeEntry {
+        let stake = self.by_key.get(&key).cloned().unwrap_or_else(|| {
+            SyncStakeEntry::from(StakeEntry {
                 key: key.clone(),
                 value: Stake {
                     nonce: Nonce::from(epoch),
                     ..Default::default()
                 },
-            }));
+            })
+        });
 
         if !stake_found {
             stake.key.write()?.validator = key.validator.clone();
@@ -256,6 +255,7 @@ where
 
         // Update all indexes if needed (only when the stake entry didn't exist before)
         if !stake_found {
+            self.by_key.insert(key.clone(), stake.clone());
             index_addresses(
                 &mut self.by_validator,
                 &mut self.by_withdrawer,
-- 
2.43.0


From 01038097074459774651d7b008dc0f18d0ff00cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:51 +0000
Subject: [PATCH 14/78] fix: refuse to remove more coins from a stake than it
 has

---
 data_structures/src/staking/errors.rs | 10 ++++++++++
 data_structures/src/staking/stake.rs  |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/data_structures/src/staking/errors.rs b/data_structures/src/staking/errors.rs
index 3001897..b4ee9fc 100644
--- a/data_structures/src/staking/errors.rs
+++ b/data_structures/src/staking/errors.rs
@@ -25,6 +25,16 @@ where
         /// The minimum stakeable amount.
         minimum: Coins,
     },
+    /// Tried to remove more coins than those that are staked.
+    #[error(
+        "The amount of coins being removed ({amount}) is above the amount of coins that are staked ({stake})"
+    )]
+    AmountIsAboveStake {
+        /// The number of coins being removed.
+        amount: Coins,
+        /// The number of coins that are staked.
+        stake: Coins,
+    },
     /// Tried to query `Stakes` for information that belongs to the past.
     #[error(
         "Tried to query `Stakes` for information that belongs to the past. Query Epoch: {epoch} Latest Epoch: {latest}"
diff --git a/data_structures/src/staking/stake.rs b/data_structures/src/staking/stake.rs
index ab5b96a..18160b3 100644
--- a/data_structures/src/staking/stake.rs
+++ b/data_structures/src/staking/stake.rs
@@ -155,6 +155,14 @@ where
         nonce_policy: NoncePolicy<Epoch>,
         minimum_stakeable: Coins,
     ) -> StakesResult<Coins, Address, Coins, Epoch> {
+        // Make sure that no more coins are removed than those that are staked
+        if coins > self.coins {
+            Err(StakesError::AmountIsAboveStake {
+                amount: coins,
+                stake: self.coins,
+            })?;
+        }
+
         let coins_after = self.coins.sub(coins);
 
         if coins_after > Coins::zero() && coins_after < minimum_stakeable {
-- 
2.43.0


From 9449ea91140679067c61cba24050373c4e72ba01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 15/78] fix: drop the right entry from the indexes when a stake
 is removed completely

---
 data_structures/src/staking/stakes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/staking/stakes.rs b/data_structures/src/staking/stakes.rs
index d6dcf6c..2929833 100644
--- a/data_structures/src/staking/stakes.rs
+++ b/data_structures/src/staking/stakes.rs
@@ -409,7 +409,7 @@ where
                     stakes.remove(
                         stakes
                             .iter()
-                            .position(|stake| stake.read_value().coins == 0.into())
+                            .position(|stake| stake.read_key() == key)
                             .unwrap(),
                     );
                     if stakes.is_empty() {
@@ -420,7 +420,7 @@ where
                     stakes.remove(
                         stakes
                             .iter()
-                            .position(|stake| stake.read_value().coins == 0.into())
+                            .position(|stake| stake.read_key() == key)
                             .unwrap(),
                     );
                     if stakes.is_empty() {
-- 
2.43.0


From 770dc8bf8b66b89319b539bf25a69454398334e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 16/78] fix: compare epochs and nonces when comparing stake
 entries

---
 data_structures/src/staking/helpers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/staking/helpers.rs b/data_structures/src/staking/helpers.rs
index 673290a..9b662e7 100644
--- a/data_structures/src/staking/helpers.rs
+++ b/data_structures/src/staking/helpers.rs
@@ -164,8 +164,8 @@ where
         let other_stake = other.value.read().unwrap();
 
         self_stake.coins.eq(&other_stake.coins)
-            && other_stake.epochs.eq(&other_stake.epochs)
-            && other_stake.nonce.eq(&other_stake.nonce)
+            && self_stake.epochs.eq(&other_stake.epochs)
+            && self_stake.nonce.eq(&other_stake.nonce)
     }
 }
 
-- 
2.43.0


From 6ed8aa06a0e8e83740b20540f38869dde134d79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 17/78] fix: refuse stake transactions whose value and change
 overflow

---
 validations/src/validations.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index d52a01a..3ac4a9f 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -116,16 +116,21 @@ pub fn st_transaction_fee(
     epoch_constants: EpochConstants,
 ) -> Result<u64, anyhow::Error> {
     let in_value = transaction_inputs_sum(&st_tx.body.inputs, utxo_diff, epoch, epoch_constants)?;
-    let out_value = st_tx.body.output.value;
     let change_value = match &st_tx.body.change {
         Some(change) => change.value,
         None => 0,
     };
+    let out_value = st_tx
+        .body
+        .output
+        .value
+        .checked_add(change_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
 
-    if out_value + change_value > in_value {
+    if out_value > in_value {
         Err(TransactionError::NegativeFee.into())
     } else {
-        Ok(in_value - out_value - change_value)
+        Ok(in_value - out_value)
     }
 }
 
@@ -1413,10 +1418,11 @@ pub fn validate_stake_transaction<'a>(
                 .map(|stake| stake.value.coins)
                 .unwrap()
                 .into();
-            if staked_amount + st_tx.body.output.value > max_stake_nanowits {
+            let total_stake = staked_amount.saturating_add(st_tx.body.output.value);
+            if total_stake > max_stake_nanowits {
                 Err(TransactionError::StakeAboveMaximum {
                     max_stake: max_stake_nanowits,
-                    stake: staked_amount + st_tx.body.output.value,
+                    stake: total_stake,
                 })?;
             }
         }
-- 
2.43.0


From 1dad341d916914fb979ad97ddff53bf48405c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:29 +0000
Subject: [PATCH 18/78] fix: refuse unstake transactions whose value and fee
 overflow

---
 validations/src/validations.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 3ac4a9f..2b526cc 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -143,10 +143,14 @@ pub fn ut_transaction_fee(
     ut_tx: &UnstakeTransaction,
     staked_amount: u64,
 ) -> Result<u64, anyhow::Error> {
-    let out_value = ut_tx.body.value();
     let fee_value = ut_tx.body.fee;
+    let out_value = ut_tx
+        .body
+        .value()
+        .checked_add(fee_value)
+        .ok_or(TransactionError::OutputValueOverflow)?;
 
-    if out_value + fee_value > staked_amount {
+    if out_value > staked_amount {
         Err(TransactionError::NegativeFee.into())
     } else {
         Ok(fee_value)
@@ -1478,7 +1482,11 @@ pub fn validate_unstake_transaction<'a>(
     }
 
     // Check if is unstaking more than the total stake
-    let mut amount_to_unstake = ut_tx.body.value() + ut_tx.body.fee;
+    let mut amount_to_unstake = ut_tx
+        .body
+        .value()
+        .checked_add(ut_tx.body.fee)
+        .ok_or(TransactionError::OutputValueOverflow)?;
 
     let validator = ut_tx.body.operator;
     let withdrawer = ut_tx.signature.public_key.pkh();
-- 
2.43.0


From 2d96ace5d0930f223b81da9fde2edfea4c372d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 19/78] fix: refuse immature collateral created in the same
 block without panicking

---
 validations/src/validations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 2b526cc..a4743d7 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -265,9 +265,10 @@ pub fn validate_commit_collateral(
         // Outputs to be spent in commitment inputs need to be older than `block_number_limit`.
         // All outputs from the genesis block are fulfill this requirement because
         // `block_number_limit` can't go lower than `0`.
+        // Outputs created in this same block are not known to the UTXO set yet.
         let included_in_block_number = utxo_diff
             .included_in_block_number(input.output_pointer())
-            .unwrap();
+            .unwrap_or(block_number);
         if included_in_block_number > block_number_limit {
             return Err(TransactionError::CollateralNotMature {
                 output: *input.output_pointer(),
-- 
2.43.0


From 89363572ba1a785a4b74497733327c00a71aa07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 20/78] fix: avoid overflow when checking the stake left after
 collateral

---
 validations/src/validations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index a4743d7..f427e53 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -193,7 +193,7 @@ pub fn validate_commit_collateral(
             .map(|stake| stake.value.coins)
             .unwrap()
             .into();
-        if validator_balance < min_stake + required_collateral {
+        if validator_balance < min_stake.saturating_add(required_collateral) {
             return Err(TransactionError::CollateralBelowMinimumStake {
                 collateral: required_collateral,
                 validator: commit_pkh,
-- 
2.43.0


From 7be8a0f3c3b569c0849e6d48e4394067861e5dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 21/78] fix: refuse genesis transactions with many signatures
 without panicking

---
 validations/src/validations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index f427e53..dd2bb89 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -498,7 +498,7 @@ pub fn validate_genesis_vt_transaction(
     // Genesis VTTs should have 0 signatures
     if !vt_tx.signatures.is_empty() {
         return Err(TransactionError::MismatchingSignaturesNumber {
-            signatures_n: u8::try_from(vt_tx.signatures.len()).unwrap(),
+            signatures_n: u8::try_from(vt_tx.signatures.len()).unwrap_or(u8::MAX),
             inputs_n: 0,
         });
     }
-- 
2.43.0


From d79bb3df97fbbda8dd4944746fb31c94d5f200b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 22/78] fix: apply the 2.0 rules for miners, candidates and
 collateral in later versions too

---
 validations/src/validations.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index dd2bb89..3699093 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -301,7 +301,7 @@ pub fn validate_commit_collateral(
         .into())
     } else if in_value - out_value != required_collateral {
         let found_collateral = in_value - out_value;
-        if protocol_version != ProtocolVersion::V2_0 {
+        if protocol_version < ProtocolVersion::V2_0 {
             Err(TransactionError::IncorrectCollateral {
                 expected: required_collateral,
                 found: found_collateral,
@@ -2563,7 +2563,7 @@ pub fn validate_block(
         // with the genesis_block_hash
         validate_genesis_block(block, consensus_constants.genesis_hash).map_err(Into::into)
     } else {
-        let target_hash = if protocol_version == ProtocolVersion::V2_0 {
+        let target_hash = if protocol_version >= ProtocolVersion::V2_0 {
             let validator = block.block_sig.public_key.pkh();
             let eligibility = stakes.mining_eligibility(validator, block_epoch, replication_factor);
             if eligibility == Ok(Eligible::No(InsufficientPower))
@@ -2845,7 +2845,7 @@ pub fn compare_block_candidates(
     s: &VrfSlots,
     protocol_version: ProtocolVersion,
 ) -> Ordering {
-    if protocol_version == ProtocolVersion::V2_0 {
+    if protocol_version >= ProtocolVersion::V2_0 {
         match b1_power.cmp(&b2_power) {
             // Equal power, first compare VRF hash and finally the block hash
             Ordering::Equal => {
-- 
2.43.0


From 652ceb27a3e25853b5a35f6f525a13f2baf0d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:28 +0000
Subject: [PATCH 23/78] fix: apply the 2.0 rules for mining, stakes and
 JSON-RPC in later versions too

---
 node/src/actors/chain_manager/mining.rs | 4 ++--
 node/src/actors/chain_manager/mod.rs    | 2 +-
 node/src/actors/json_rpc/api.rs         | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/node/src/actors/chain_manager/mining.rs b/node/src/actors/chain_manager/mining.rs
index 48d0b3f..92b210e 100644
--- a/node/src/actors/chain_manager/mining.rs
+++ b/node/src/actors/chain_manager/mining.rs
@@ -120,7 +120,7 @@ impl ChainManager {
         beacon.checkpoint = current_epoch;
         vrf_input.checkpoint = current_epoch;
 
-        let target_hash = if protocol_version == V2_0 {
+        let target_hash = if protocol_version >= V2_0 {
             let replication_factor = self.consensus_constants_wit2.get_replication_factor(
                 current_epoch,
                 chain_info.highest_block_checkpoint.checkpoint,
@@ -1310,7 +1310,7 @@ pub fn build_block(
     }
 
     // Include Mint Transaction by miner
-    let mint = if protocol_version == V2_0 {
+    let mint = if protocol_version >= V2_0 {
         let mut mint = MintTransaction::default();
         mint.epoch = epoch;
 
diff --git a/node/src/actors/chain_manager/mod.rs b/node/src/actors/chain_manager/mod.rs
index 0f18bc5..e532b10 100644
--- a/node/src/actors/chain_manager/mod.rs
+++ b/node/src/actors/chain_manager/mod.rs
@@ -3023,7 +3023,7 @@ fn process_wit2_stakes_changes(
     let miner_pkh = block.block_header.proof.proof.pkh();
 
     // Reset the coin age of the miner for all staked coins
-    if ProtocolVersion::from_epoch(block_epoch) == ProtocolVersion::V2_0 {
+    if ProtocolVersion::from_epoch(block_epoch) >= ProtocolVersion::V2_0 {
         let minimum_stakeable =
             consensus_constants_wit2.get_validator_min_stake_nanowits(block_epoch);
 
diff --git a/node/src/actors/json_rpc/api.rs b/node/src/actors/json_rpc/api.rs
index 89e2630..c324d2a 100644
--- a/node/src/actors/json_rpc/api.rs
+++ b/node/src/actors/json_rpc/api.rs
@@ -835,7 +835,7 @@ pub async fn get_block(params: Params) -> Result<Value, Error> {
                     }
                 }
 
-                if ProtocolVersion::from_epoch(block_epoch) == ProtocolVersion::V2_0 {
+                if ProtocolVersion::from_epoch(block_epoch) >= ProtocolVersion::V2_0 {
                     let ut_hashes: Vec<_> = output
                         .txns
                         .unstake_txns
-- 
2.43.0


From 4e9e393034eab42919514bef4ce8b8477aefe212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 24/78] fix: leave no data requests of a refused block in the
 data request pool

---
 data_structures/src/data_request.rs | 12 +++++++
 validations/src/validations.rs      | 52 +++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+)

diff --git a/data_structures/src/data_request.rs b/data_structures/src/data_request.rs
index 2c58bc9..0865fa4 100644
--- a/data_structures/src/data_request.rs
+++ b/data_structures/src/data_request.rs
@@ -171,6 +171,18 @@ impl DataRequestPool {
         Ok(())
     }
 
+    /// Remove a data request which was only added to validate a block
+    pub fn remove_data_request(&mut self, dr_pointer: &Hash) {
+        if let Some(dr_state) = self.data_request_pool.remove(dr_pointer)
+            && let Some(hs) = self.data_requests_by_epoch.get_mut(&dr_state.epoch)
+        {
+            hs.remove(dr_pointer);
+            if hs.is_empty() {
+                self.data_requests_by_epoch.remove(&dr_state.epoch);
+            }
+        }
+    }
+
     /// Add a commit to the corresponding data request
     fn add_commit(
         &mut self,
diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 3699093..8e67949 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -1935,6 +1935,58 @@ pub fn update_utxo_diff<'a, IterInputs, IterOutputs>(
 /// This uses a `Visitor` that will visit each transaction as well as its fee and weight.
 #[allow(clippy::too_many_arguments)]
 pub fn validate_block_transactions(
+    utxo_set: &UnspentOutputsPool,
+    dr_pool: &mut DataRequestPool,
+    block: &Block,
+    vrf_input: CheckpointVRF,
+    signatures_to_verify: &mut Vec<SignaturesToVerify>,
+    rep_eng: &ReputationEngine,
+    epoch_constants: EpochConstants,
+    block_number: u32,
+    consensus_constants: &ConsensusConstants,
+    consensus_constants_wit2: &ConsensusConstantsWit2,
+    active_wips: &ActiveWips,
+    visitor: Option<&mut dyn Visitor<Visitable = (Transaction, u64, u32)>>,
+    stakes: &StakesTracker,
+) -> Result<Diff, anyhow::Error> {
+    // Data requests with too many witnesses are temporarily added to the data request pool
+    let block_protocol_version = get_protocol_version(Some(block.block_header.beacon.checkpoint));
+    let new_data_requests: Vec<Hash> = block
+        .txns
+        .data_request_txns
+        .iter()
+        .map(|dr_tx| dr_tx.versioned_hash(block_protocol_version))
+        .filter(|dr_pointer| dr_pool.data_request_state(dr_pointer).is_none())
+        .collect();
+
+    let result = validate_block_transactions_inner(
+        utxo_set,
+        dr_pool,
+        block,
+        vrf_input,
+        signatures_to_verify,
+        rep_eng,
+        epoch_constants,
+        block_number,
+        consensus_constants,
+        consensus_constants_wit2,
+        active_wips,
+        visitor,
+        stakes,
+    );
+
+    // Those of a block that is not valid must not stay there
+    if result.is_err() {
+        for dr_pointer in &new_data_requests {
+            dr_pool.remove_data_request(dr_pointer);
+        }
+    }
+
+    result
+}
+
+#[allow(clippy::too_many_arguments)]
+fn validate_block_transactions_inner(
     utxo_set: &UnspentOutputsPool,
     dr_pool: &mut DataRequestPool,
     block: &Block,
-- 
2.43.0


From 8d40b0bfac6f11943b6e8f6a24b3e3e37363369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 25/78] fix: requests left over from other candidate blocks do
 not make a block invalid

---
 validations/src/validations.rs | 36 ++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 8e67949..856b771 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -2194,7 +2194,6 @@ fn validate_block_transactions_inner(
 
     // Validate data request transactions in a block
     let mut dr_weight: u32 = 0;
-    let mut too_many_witnesses_drs = HashSet::<Hash>::new();
     if active_wips.wip_0008() {
         // Calculate data request not solved weight
         let mut dr_pointers: HashSet<Hash> = dr_pool
@@ -2206,15 +2205,14 @@ fn validate_block_transactions_inner(
         }
         for dr in dr_pointers {
             let unsolved_dro = dr_pool.get_dr_output(&dr);
-            if let Some(dro) = unsolved_dro {
+            // Data requests with too many witnesses are not waiting for commits: they are leftovers
+            // from validating other block candidates, which may differ between nodes
+            if let Some(dro) = unsolved_dro
+                && !data_request_has_too_many_witnesses(&dro, stakes.validator_count(), Some(epoch))
+            {
                 dr_weight = dr_weight
                     .saturating_add(dro.weight())
                     .saturating_add(dro.extra_weight());
-
-                if data_request_has_too_many_witnesses(&dro, stakes.validator_count(), Some(epoch))
-                {
-                    too_many_witnesses_drs.insert(dr);
-                }
             }
         }
     }
@@ -2252,13 +2250,9 @@ fn validate_block_transactions_inner(
         let Hash::SHA256(sha) = txn_hash;
         dr_mt.push(Sha256(sha));
 
-        // Update dr weight, but prevent double counting data requests with too many witnesses
+        // Update dr weight
         let weight = transaction.weight();
-        let acc_weight = if too_many_witnesses_drs.contains(&txn_hash) {
-            dr_weight
-        } else {
-            dr_weight.saturating_add(weight)
-        };
+        let acc_weight = dr_weight.saturating_add(weight);
         if acc_weight > consensus_constants.max_dr_weight {
             return Err(BlockError::TotalDataRequestWeightLimitExceeded {
                 weight: acc_weight,
@@ -2315,6 +2309,22 @@ fn validate_block_transactions_inner(
     let mut ta_mt = ProgressiveMerkleTree::sha256();
     let mut tally_hs = HashSet::with_capacity(block.txns.tally_txns.len());
     let mut expected_tally_ready_drs = dr_pool.get_tally_ready_drs();
+    // Do not expect tallies for other data requests with too many witnesses, like leftovers from
+    // validating other block candidates, because those tallies are not valid in this block
+    let wit2_activation_epoch = get_protocol_version_activation_epoch(ProtocolVersion::V2_0);
+    expected_tally_ready_drs.retain(|dr_pointer| {
+        data_requests_with_too_many_witnesses.contains(dr_pointer)
+            || dr_pool
+                .data_request_state(dr_pointer)
+                .is_none_or(|dr_state| {
+                    dr_state.epoch <= wit2_activation_epoch
+                        || !data_request_has_too_many_witnesses(
+                            &dr_state.data_request,
+                            validators_count,
+                            Some(dr_state.epoch),
+                        )
+                })
+    });
     for transaction in &block.txns.tally_txns {
         let data_request_protocol_version =
             if let Some(dr_state) = dr_pool.data_request_state(&transaction.dr_pointer) {
-- 
2.43.0


From 027327f9e50d81adc394065d5376dfc5df966f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 26/78] fix: overflow in the timestamp of an epoch of wit/2

---
 data_structures/src/chain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index a2adbf0..20664b6 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -4784,7 +4784,7 @@ impl EpochConstants {
             .map_err(|_| EpochCalculationError::Overflow)?;
 
             self.checkpoint_zero_timestamp_wit2
-                + i64::from((epoch - epochs_pre_v2) * Epoch::from(self.checkpoints_period_wit2))
+                + i64::from(epoch - epochs_pre_v2) * i64::from(self.checkpoints_period_wit2)
         } else {
             epoch_timestamp
         };
-- 
2.43.0


From 6d71136dc2d90550624424091033734b9ac4d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:38 +0000
Subject: [PATCH 27/78] fix: overflow in the activation time of a protocol
 version

---
 data_structures/src/proto/versioning.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/proto/versioning.rs b/data_structures/src/proto/versioning.rs
index 62c9462..ea5a28b 100644
--- a/data_structures/src/proto/versioning.rs
+++ b/data_structures/src/proto/versioning.rs
@@ -58,7 +58,7 @@ impl ProtocolInfo {
             let previous_version_activation_timestamp =
                 self.derive_activation_timestamp(previous_version, consensus_constants);
             let previous_version_checkpoint_period =
-                u32::from(if previous_version == ProtocolVersion::MIN {
+                i64::from(if previous_version == ProtocolVersion::MIN {
                     consensus_constants.checkpoints_period
                 } else {
                     *self.all_checkpoints_periods.get(&previous_version)?
@@ -72,7 +72,7 @@ impl ProtocolInfo {
                         .unwrap_or(0),
                 );
             let previous_version_span_seconds =
-                i64::from(previous_version_span_epochs * previous_version_checkpoint_period);
+                i64::from(previous_version_span_epochs) * previous_version_checkpoint_period;
 
             Some(previous_version_activation_timestamp? + previous_version_span_seconds)
         }
-- 
2.43.0


From a6c3c8d6184fe0b01bc73412b14bcb7dc3ca5a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 28/78] fix: a superblock vote with malformed key or signature
 made verification panic

---
 validations/src/validations.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/validations/src/validations.rs b/validations/src/validations.rs
index 856b771..6b073fc 100644
--- a/validations/src/validations.rs
+++ b/validations/src/validations.rs
@@ -3029,17 +3029,9 @@ pub fn verify_signatures(
                 let secp_message = superblock_vote.secp256k1_signature_message();
                 let secp_message_hash = calculate_sha256(&secp_message);
                 verify(
-                    &superblock_vote
-                        .secp256k1_signature
-                        .public_key
-                        .try_into()
-                        .unwrap(),
+                    &superblock_vote.secp256k1_signature.public_key.try_into()?,
                     &secp_message_hash.0,
-                    &superblock_vote
-                        .secp256k1_signature
-                        .signature
-                        .try_into()
-                        .unwrap(),
+                    &superblock_vote.secp256k1_signature.signature.try_into()?,
                 )?;
             }
         }
-- 
2.43.0


From e8648bfadbdb87c780b615c8a20b2ba406b8094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 29/78] fix: conflicting votes after a repeated superblock vote
 made the node panic

---
 data_structures/src/superblock.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/superblock.rs b/data_structures/src/superblock.rs
index 59cb0bf..827eaed 100644
--- a/data_structures/src/superblock.rs
+++ b/data_structures/src/superblock.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{HashMap, HashSet, hash_map::Entry},
     convert::{TryFrom, TryInto},
 };
 
@@ -168,12 +168,9 @@ impl SuperBlockVotesMempool {
 
     fn insert_vote(&mut self, sbv: SuperBlockVote) {
         let pkh = sbv.secp256k1_signature.public_key.pkh();
-        if self
-            .votes_of_each_identity
-            .insert(pkh, sbv.clone())
-            .is_none()
-        {
-            // Only insert votes from a PublicKeyHash the first time
+        // Only insert votes from a PublicKeyHash the first time
+        if let Entry::Vacant(entry) = self.votes_of_each_identity.entry(pkh) {
+            entry.insert(sbv.clone());
             self.votes_on_each_superblock
                 .entry(sbv.superblock_hash)
                 .or_default()
-- 
2.43.0


From e8a32b3dc6e0df40e178d42662cdb41fcd677446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 30/78] fix: selecting a committee without members made the
 node panic

---
 data_structures/src/superblock.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/superblock.rs b/data_structures/src/superblock.rs
index 827eaed..83cbc59 100644
--- a/data_structures/src/superblock.rs
+++ b/data_structures/src/superblock.rs
@@ -631,8 +631,9 @@ pub fn calculate_superblock_signing_committee(
     superblock_hash: Hash,
     block_epoch: Epoch,
 ) -> HashSet<PublicKeyHash> {
-    // If the number of identities is lower than committee_size all the members of the ARS sign the superblock
-    if ars_identities.len() < usize::try_from(signing_committee_size).unwrap() {
+    // If the number of identities is not greater than committee_size all the members of the ARS sign
+    // the superblock
+    if ars_identities.len() <= usize::try_from(signing_committee_size).unwrap() {
         ars_identities.identities
     } else if after_second_hard_fork(block_epoch, get_environment()) {
         // Start counting the members of the subset from:
-- 
2.43.0


From c9ea91768d7ce300762bffa22b483912474ccb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 31/78] fix: negative integers below -2^63 in RADON values
 wrapped around

---
 rad/src/types/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rad/src/types/mod.rs b/rad/src/types/mod.rs
index 9b4d4b7..a540d13 100644
--- a/rad/src/types/mod.rs
+++ b/rad/src/types/mod.rs
@@ -440,9 +440,10 @@ impl TryFrom<CborValue> for RadonTypes {
             CborValue::I16(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
             CborValue::I32(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
             CborValue::I64(x) => Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x)))),
-            CborValue::Int(Int::Neg(x)) => {
-                Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x))))
-            }
+            // CBOR encodes the negative integer n as -1 - n
+            CborValue::Int(Int::Neg(x)) => Ok(RadonTypes::Integer(RadonInteger::from(
+                -1 - i128::from(x),
+            ))),
             CborValue::Int(Int::Pos(x)) => {
                 Ok(RadonTypes::Integer(RadonInteger::from(i128::from(x))))
             }
-- 
2.43.0


From 4f1ed09e48f362cec1904623b2a108921635dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 32/78] fix: mode reducer and filter overflowed with 128 or
 more equal values

---
 rad/src/reducers/mode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad/src/reducers/mode.rs b/rad/src/reducers/mode.rs
index 483b690..9d02923 100644
--- a/rad/src/reducers/mode.rs
+++ b/rad/src/reducers/mode.rs
@@ -7,7 +7,7 @@ use std::{collections::HashMap, convert::TryFrom};
 pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     let value = input.value();
 
-    let mut counter: HashMap<RadonTypes, i8> = HashMap::new();
+    let mut counter: HashMap<RadonTypes, usize> = HashMap::new();
 
     // Count how many times does each different item appear in the input array
     for item in value {
@@ -30,7 +30,7 @@ pub fn mode(input: &RadonArray) -> Result<RadonTypes, RadError> {
     if mode_vector.len() > 1 {
         Err(RadError::ModeTie {
             values: input.clone(),
-            max_count: u16::try_from(*max_count).unwrap(),
+            max_count: u16::try_from(*max_count).unwrap_or(u16::MAX),
         })
     } else {
         Ok(mode_vector.into_iter().next().unwrap())
-- 
2.43.0


From 476ff0407004ecb155fe0e46a4f1cdf030badfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 33/78] fix: slicing a RADON string inside a character panicked

---
 rad/src/operators/string.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rad/src/operators/string.rs b/rad/src/operators/string.rs
index 17af7d4..c6fe5eb 100644
--- a/rad/src/operators/string.rs
+++ b/rad/src/operators/string.rs
@@ -497,16 +497,14 @@ pub fn string_slice(input: &RadonString, args: &[Value]) -> Result<RadonString,
     }
     start = start.max(0).min(input_length);
     end = end.min(input_length).max(0);
-    let output_length = (end as usize).saturating_sub(start as usize);
 
-    // Only perform real slicing if the sliced range is not empty
-    let sliced_string = if output_length > 0 {
+    // Only perform real slicing if the sliced range is not empty. The range counts bytes, and there
+    // is no string to return if it begins or ends in the middle of a character.
+    let sliced_string = if start < end {
         input
             .value()
-            .split_at(start as usize)
-            .1
-            .split_at(output_length)
-            .0
+            .get(start as usize..end as usize)
+            .ok_or_else(wrong_args)?
             .to_owned()
     } else {
         String::new()
-- 
2.43.0


From b5759516c7324b4e230fcd43fe765ae0cf2992fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 34/78] fix: get operators without arguments and sorting by
 mixed keys panicked

---
 rad/src/operators/array.rs | 9 +++++----
 rad/src/operators/map.rs   | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/rad/src/operators/array.rs b/rad/src/operators/array.rs
index 475d5d5..6014c83 100644
--- a/rad/src/operators/array.rs
+++ b/rad/src/operators/array.rs
@@ -99,8 +99,9 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonArray, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
-    let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
+    let item = get::<RadonString, _>(input, args.get(..1).unwrap_or_default())?.value();
+    let (thousands_separator, decimal_separator) =
+        string::read_separators_from_args(args.get(1..).unwrap_or_default());
 
     Ok(RadonString::from(string::replace_separators(
         item,
@@ -266,8 +267,8 @@ pub fn sort(
     if input.value().is_empty() {
         return Ok(input.clone().into());
     }
-    // Sort not applicable if not homogeneous
-    if !input.is_homogeneous() {
+    // Sort not applicable if not homogeneous, neither the items nor what they are sorted by
+    if !input.is_homogeneous() || !mapped_array.is_homogeneous() {
         return Err(RadError::UnsupportedOpNonHomogeneous {
             operator: "ArraySort".to_string(),
         });
diff --git a/rad/src/operators/map.rs b/rad/src/operators/map.rs
index 6047d14..6b2b75c 100644
--- a/rad/src/operators/map.rs
+++ b/rad/src/operators/map.rs
@@ -57,8 +57,9 @@ where
 /// This simply assumes that the element in that position is a number (i.e., `RadonFloat` or
 /// `RadonInteger`). If it is not, it will fail with a `RadError` because of `replace_separators`.
 fn get_numeric_string(input: &RadonMap, args: &[Value]) -> Result<RadonString, RadError> {
-    let item = get::<RadonString, _>(input, &args[..1])?.value();
-    let (thousands_separator, decimal_separator) = string::read_separators_from_args(&args[1..]);
+    let item = get::<RadonString, _>(input, args.get(..1).unwrap_or_default())?.value();
+    let (thousands_separator, decimal_separator) =
+        string::read_separators_from_args(args.get(1..).unwrap_or_default());
 
     Ok(RadonString::from(string::replace_separators(
         item,
-- 
2.43.0


From df90b9855e5a4bd922912a90edafb1721a651778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 35/78] fix: requests to HTTPS sources were not sent through
 the proxy

---
 net/src/client/http/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/src/client/http/mod.rs b/net/src/client/http/mod.rs
index 1069b51..2ba0546 100644
--- a/net/src/client/http/mod.rs
+++ b/net/src/client/http/mod.rs
@@ -103,7 +103,8 @@ impl WitnetHttpClient {
 
         let client = match proxy {
             Some(proxy) => {
-                let proxy = reqwest::Proxy::http(proxy).map_err(|err| {
+                // `Proxy::http` would leave out any HTTPS traffic
+                let proxy = reqwest::Proxy::all(proxy).map_err(|err| {
                     WitnetHttpError::ClientBuildError {
                         msg: err.to_string(),
                     }
-- 
2.43.0


From 4997429240d1e55249f8fbfc8077a13f8e6ea00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 36/78] fix: HTTP-HEAD retrievals corrupted the first header
 and cut values at colons

---
 rad/src/lib.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/rad/src/lib.rs b/rad/src/lib.rs
index b0f4701..5dd26a6 100644
--- a/rad/src/lib.rs
+++ b/rad/src/lib.rs
@@ -27,8 +27,8 @@ use crate::{
         execute_radon_script, unpack_radon_script,
     },
     types::{
-        RadonTypes, RadonTypesDiscriminant, array::RadonArray, bytes::RadonBytes, map::RadonMap,
-        string::RadonString,
+        RadonType, RadonTypes, RadonTypesDiscriminant, array::RadonArray, bytes::RadonBytes,
+        map::RadonMap, string::RadonString,
     },
     user_agents::UserAgent,
 };
@@ -235,19 +235,17 @@ fn headers_response_with_data_report(
     settings: RadonScriptExecutionSettings,
 ) -> Result<RadonReport<RadonTypes>> {
     if let RadonTypes::String(response) = response {
-        let response_string: String = response.to_string();
+        let response_string: String = response.value();
         let headers: BTreeMap<String, RadonTypes> = response_string
             .split("\r\n")
             .filter_map(|line| {
-                let parts: Vec<&str> = line.split(':').map(|part| part.trim()).collect();
-                if parts.len() >= 2 {
-                    Some((
-                        String::from(parts[0]),
-                        RadonTypes::from(RadonString::from(parts[1])),
-                    ))
-                } else {
-                    None
-                }
+                // Only the first colon is a separator, the value can contain more of them
+                line.split_once(':').map(|(name, value)| {
+                    (
+                        String::from(name.trim()),
+                        RadonTypes::from(RadonString::from(value.trim())),
+                    )
+                })
             })
             .collect();
         // todo: turn multiple entries with same key into single entry with array of values
-- 
2.43.0


From f8f192d346a878cd30014441123e178fa984ab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:47 +0000
Subject: [PATCH 37/78] fix: values that cannot be aggregated across transports
 were taken as consistent

---
 rad/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rad/src/lib.rs b/rad/src/lib.rs
index 5dd26a6..6a80800 100644
--- a/rad/src/lib.rs
+++ b/rad/src/lib.rs
@@ -661,7 +661,7 @@ fn evaluate_paranoid_retrieval(
         .into_iter()
         .collect::<Result<Vec<_>>>()
         .or(Err(RadError::InconsistentSource))?;
-    let values = reports
+    let values: Vec<RadonTypes> = reports
         .iter()
         .cloned()
         .map(RadonReport::into_inner)
@@ -675,9 +675,14 @@ fn evaluate_paranoid_retrieval(
     // avoid these tricks here.
     let mut context = ReportContext::from_stage(Stage::Tally(TallyMetaData::default()));
     let consensus = RADTally::from(aggregate);
-    let tally = run_tally_with_context_report(values, &consensus, &mut context, settings)
+    let tally = run_tally_with_context_report(values.clone(), &consensus, &mut context, settings)
         // Case 3
         .or(Err(RadError::InconsistentSource))?;
+    // Case 3 as well: a failure of the execution itself is reported as the result. This is not to be
+    // confused with the sources themselves agreeing on an error.
+    if matches!(tally.result, RadonTypes::RadonError(_)) && !values.contains(&tally.result) {
+        return Err(RadError::InconsistentSource);
+    }
 
     // If the consensus of the data points is below the paranoid threshold of the node, we need
     // to resolve to the `InconsistentSource` error.
-- 
2.43.0


From 4bd90033d41a036567ffdc6a1817572460eec6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 38/78] fix: a malformed message from a peer made the session
 panic

---
 data_structures/src/proto/versioning.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/data_structures/src/proto/versioning.rs b/data_structures/src/proto/versioning.rs
index ea5a28b..06c7206 100644
--- a/data_structures/src/proto/versioning.rs
+++ b/data_structures/src/proto/versioning.rs
@@ -283,9 +283,9 @@ pub trait Versioned: ProtobufConvert {
     /// schema.
     fn from_versioned_pb(legacy: Self::LegacyType) -> Result<Self, Error>
     where
-        Self: From<Self::LegacyType>,
+        Self: TryFrom<Self::LegacyType, Error = Error>,
     {
-        Ok(Self::from(legacy))
+        Self::try_from(legacy)
     }
 
     /// Tries to deserialize a data structure from its regular protobuf schema, and if it fails, it
@@ -293,7 +293,7 @@ pub trait Versioned: ProtobufConvert {
     fn from_versioned_pb_bytes(bytes: &[u8]) -> Result<Self, Error>
     where
         <Self as ProtobufConvert>::ProtoStruct: protobuf::Message,
-        Self: From<Self::LegacyType>,
+        Self: TryFrom<Self::LegacyType, Error = Error>,
     {
         let mut current = Self::ProtoStruct::new();
         let direct_attempt = current
@@ -307,7 +307,7 @@ pub trait Versioned: ProtobufConvert {
             let mut legacy = Self::LegacyType::new();
             legacy.merge_from_bytes(bytes)?;
 
-            Ok(Self::from(legacy))
+            Self::try_from(legacy)
         }
     }
 }
@@ -848,11 +848,13 @@ impl From<LegacyMessage> for crate::proto::schema::witnet::Message {
     }
 }
 
-impl From<LegacyMessage> for Message {
-    fn from(legacy: LegacyMessage) -> Self {
+impl TryFrom<LegacyMessage> for Message {
+    type Error = Error;
+
+    fn try_from(legacy: LegacyMessage) -> Result<Self, Self::Error> {
         let pb = crate::proto::schema::witnet::Message::from(legacy);
 
-        Message::from_pb(pb).unwrap()
+        Message::from_pb(pb)
     }
 }
 
-- 
2.43.0


From 5e70a776dfbd41883943e9e274c6d1bf5c24cbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:53 +0000
Subject: [PATCH 39/78] fix: the wallet took a further stake off the staked
 balance

---
 wallet/src/repository/wallet/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index eff07e7..b5abed0 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1495,7 +1495,7 @@ where
             let amount = if let Some(output) = output {
                 output
                     .value
-                    .checked_sub(stake_output_insert.amount)
+                    .checked_add(stake_output_insert.amount)
                     .ok_or(Error::TransactionValueOverflow)?
             } else {
                 stake_output_insert.amount
-- 
2.43.0


From 91c06741b491e846df0dfcc98ea2dcebcc4f241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:53 +0000
Subject: [PATCH 40/78] fix: the wallet left the fee of an unstake in the
 staked balance

---
 wallet/src/repository/wallet/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index b5abed0..b548155 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1852,7 +1852,12 @@ where
                     withdrawer: unstake.body.withdrawal.pkh,
                     validator: unstake.body.operator,
                 },
-                amount: unstake.body.withdrawal.value,
+                amount: unstake
+                    .body
+                    .withdrawal
+                    .value
+                    .checked_add(unstake.body.fee)
+                    .ok_or(Error::TransactionValueOverflow)?,
             };
             stake_output_removals.push(stake_output_info);
         }
-- 
2.43.0


From d907dfaa6cc99fe88f3bf13bc12c50b74bdc2ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:12 +0000
Subject: [PATCH 41/78] fix: the wallet took collateral and the value of data
 requests for fees

---
 wallet/src/repository/wallet/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index b548155..284a2b4 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1888,13 +1888,25 @@ where
                     Transaction::Stake(st) => total_input_amount
                         .saturating_sub(st.body.output.value)
                         .saturating_sub(st.body.change.map_or(0, |change| change.value)),
+                    // What a commit transaction does not get back is collateral
+                    Transaction::Commit(_) => 0,
                     // Genesis block (no inputs) or empty block with only `MintTransaction`
                     _ if total_input_amount == 0 => 0,
-                    _ => {
+                    other => {
                         let total_output_amount = outputs.iter().fold(0, |acc, x| acc + x.value);
+                        // The value of a data request rewards its witnesses
+                        let request_value = match other {
+                            Transaction::DataRequest(dr) => dr
+                                .body
+                                .dr_output
+                                .checked_total_value()
+                                .map_err(|_| Error::TransactionValueOverflow)?,
+                            _ => 0,
+                        };
 
                         total_input_amount
                             .checked_sub(total_output_amount)
+                            .and_then(|amount| amount.checked_sub(request_value))
                             .unwrap_or_else(|| {
                                 log::warn!(
                 "Miner fee below 0 in a transaction of type value transfer or data request: {}",
@@ -1905,7 +1917,10 @@ where
                     }
                 }
             }
-            _ => 0,
+            _ => match &txn.transaction {
+                Transaction::Unstake(unstake) => unstake.body.fee,
+                _ => 0,
+            },
         };
 
         // If no metadata is present in the extended transaction, insert resolved inputs so that
-- 
2.43.0


From 186403e61ba8bdd2816b5224261a435bd79cb394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 42/78] fix: the wallet showed reveals out of consensus as in
 consensus

---
 wallet/src/repository/wallet/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 284a2b4..4d67acb 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2357,8 +2357,7 @@ fn build_tally_report(
 
             // Set not `in_consensus` reveals
             for pkh in &tally.out_of_consensus {
-                let outlier = reveals.get_mut(pkh).cloned();
-                if let Some(mut reveal) = outlier {
+                if let Some(reveal) = reveals.get_mut(pkh) {
                     reveal.in_consensus = false;
                 } else {
                     reveals.insert(
-- 
2.43.0


From c6dda77f6042807d6c0cc6763bd5bbc9e8da9f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:28 +0000
Subject: [PATCH 43/78] fix: the wallet missed transactions that spend its
 outputs in the block that creates them

---
 wallet/src/actors/worker/methods.rs |  2 +-
 wallet/src/repository/wallet/mod.rs | 39 +++++++++++++++++++++--------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/wallet/src/actors/worker/methods.rs b/wallet/src/actors/worker/methods.rs
index e2a2187..4f3abc0 100644
--- a/wallet/src/actors/worker/methods.rs
+++ b/wallet/src/actors/worker/methods.rs
@@ -442,7 +442,7 @@ impl Worker {
         // Note: this code can be further refactored by only updating the transient addresses
         wallet._sync_address_generation(txns.clone())?;
 
-        let filtered_txns = wallet.filter_wallet_transactions(txns)?;
+        let filtered_txns = wallet.filter_wallet_transactions(txns, block_info.epoch)?;
         log::debug!(
             "Indexing block #{} ({}) with {} transactions ({})",
             block_info.epoch,
diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 4d67acb..af30cfe 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -785,10 +785,18 @@ where
     pub fn filter_wallet_transactions(
         &self,
         txns: impl Iterator<Item = Transaction>,
+        epoch: Epoch,
     ) -> Result<Vec<Transaction>> {
         let state = self.state.read()?;
+        let protocol_version = self
+            .params
+            .protocol_info
+            .all_versions
+            .version_for_epoch(epoch);
 
         let mut filtered_txns = vec![];
+        // Outputs of the wallet that are created by earlier transactions in the same block
+        let mut new_outputs: HashSet<OutputPointer> = HashSet::new();
         for txn in txns {
             // Inputs and outputs from different transaction types
             let (inputs, outputs): (&[Input], &[ValueTransferOutput]) = match txn {
@@ -808,33 +816,42 @@ where
             };
 
             // Check if tally txn corresponds to a wallet sent data request
-            if let Transaction::Tally(tally) = &txn {
+            let is_own_tally = if let Transaction::Tally(tally) = &txn {
                 // There is a DR transaction persisted in database whose tally was found or
                 // there is a DR transaction in pending state whose tally was found
-                if state
+                state
                     .pending_dr_movements
                     .contains_key(&tally.dr_pointer.to_string())
                     || self
                         .db
                         .get(&keys::transactions_index(tally.dr_pointer.as_ref()))
                         .is_ok()
-                {
-                    filtered_txns.push(txn.clone());
-                    continue;
-                }
-            }
+            } else {
+                false
+            };
 
             let check_db_and_transient = |output: &ValueTransferOutput| {
                 self.db.get(&keys::pkh(&output.pkh)).is_ok()
                     || state.transient_external_addresses.contains_key(&output.pkh)
                     || state.transient_internal_addresses.contains_key(&output.pkh)
             };
-            // Check if any input or output is from the wallet (input is an UTXO or output points to any wallet's pkh)
-            if inputs
+            let own_outputs: Vec<usize> = outputs
                 .iter()
-                .any(|input| state.utxo_set.contains_key(&input.output_pointer().into()))
-                || outputs.iter().any(check_db_and_transient)
+                .positions(check_db_and_transient)
+                .collect();
+            // Check if any input or output is from the wallet (input is an UTXO or output points to any wallet's pkh)
+            if is_own_tally
+                || inputs.iter().any(|input| {
+                    state.utxo_set.contains_key(&input.output_pointer().into())
+                        || new_outputs.contains(input.output_pointer())
+                })
+                || !own_outputs.is_empty()
             {
+                let transaction_id = txn.versioned_hash(protocol_version);
+                new_outputs.extend(own_outputs.into_iter().map(|index| OutputPointer {
+                    transaction_id,
+                    output_index: u32::try_from(index).unwrap(),
+                }));
                 filtered_txns.push(txn.clone());
             }
         }
-- 
2.43.0


From 51476c57a7082e510b589693bd716ce0b73be403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:28 +0000
Subject: [PATCH 44/78] fix: the wallet persisted the tally of a data request
 before its block was confirmed

---
 wallet/src/repository/wallet/mod.rs | 33 ++++++++++++++++-------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index af30cfe..c0ab51c 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -624,6 +624,12 @@ where
             transactions.extend_from_slice(local_movements.drain(range_local).as_slice());
         }
 
+        // Build a HashMap<transaction_index, balance_movement>
+        let mut db_movements_to_update: HashMap<u32, model::BalanceMovement> = HashMap::new();
+        state.db_movements_to_update.values().for_each(|movements| {
+            db_movements_to_update.extend(movements.iter().map(|x| (x.db_key, x.clone())))
+        });
+
         // Append balance movements of pending blocks
         if let Some(range_pending) = range_pending {
             // We need to order transaction by beacon
@@ -645,15 +651,14 @@ where
                 );
             });
 
-            transactions.extend_from_slice(&all_pending_movements[range_pending]);
+            transactions.extend(all_pending_movements[range_pending].iter().map(|movement| {
+                db_movements_to_update
+                    .get(&movement.db_key)
+                    .unwrap_or(movement)
+                    .clone()
+            }));
         }
 
-        // Build a HashMap<transaction_index, balance_movement>
-        let mut db_movements_to_update: HashMap<u32, model::BalanceMovement> = HashMap::new();
-        state.db_movements_to_update.values().for_each(|movements| {
-            db_movements_to_update.extend(movements.iter().map(|x| (x.db_key, x.clone())))
-        });
-
         if let Some(range_db) = range_db {
             for index in range_db.rev() {
                 let index = u32::try_from(index).unwrap();
@@ -665,7 +670,9 @@ where
                         "Updating transaction {:?} with pending tally found",
                         transaction.transaction.hash
                     );
-                    transactions.push(transaction.clone());
+                    let mut transaction = transaction.clone();
+                    transaction.transaction.confirmed = true;
+                    transactions.push(transaction);
                 } else {
                     match self.get_transaction(account, index) {
                         Ok(transaction) => {
@@ -915,17 +922,13 @@ where
                         .clone();
 
                     match &dr_movement.transaction.data.clone() {
+                        // The tally is persisted along with the block that contains it, which
+                        // may be confirmed later than the one containing the DR (or never)
                         model::TransactionData::DataRequest(dr_data) => {
                             let mut updated_dr_movement = dr_movement;
                             updated_dr_movement.transaction.data =
                                 build_updated_dr_transaction_data(dr_data, tally, &txn.metadata)?;
-                            state
-                                .pending_movements
-                                .get_mut(&pending_block_hash.to_string())
-                                .unwrap()[index] = updated_dr_movement;
-                            state
-                                .pending_dr_movements
-                                .remove(&tally.dr_pointer.to_string());
+                            db_movements_to_update.push(updated_dr_movement);
                         }
                         _ => log::warn!(
                             "data request tally update failed because wrong transaction type (txn: {})",
-- 
2.43.0


From b02ff77493e46a6271d767de1bc17061fbc4e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 45/78] fix: the wallet lost the movements of blocks whose
 superblock was not notified

---
 wallet/src/repository/wallet/mod.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index c0ab51c..1f33222 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2068,11 +2068,35 @@ where
             if block_hash == &self.params.genesis_hash.to_string() {
                 Ok(())
             } else {
+                // Earlier blocks are confirmed too, even if their superblock was not notified
+                for ancestor in self.pending_ancestors(block_hash)? {
+                    self.try_consolidate_block(&ancestor)?;
+                }
+
                 self.try_consolidate_block(block_hash)
             }
         })
     }
 
+    /// Hashes of the pending blocks that come before a pending block, in chain order.
+    fn pending_ancestors(&self, block_hash: &str) -> Result<Vec<String>> {
+        let state = self.state.read()?;
+
+        let ancestors = match state.pending_blocks.get(block_hash) {
+            Some(block) => state
+                .pending_blocks
+                .values()
+                .map(|ancestor| &ancestor.beacon)
+                .filter(|ancestor| ancestor.epoch < block.beacon.epoch)
+                .sorted_by_key(|ancestor| ancestor.epoch)
+                .map(|ancestor| ancestor.block_hash.to_string())
+                .collect(),
+            None => vec![],
+        };
+
+        Ok(ancestors)
+    }
+
     /// Try to consolidate a block by persisting all changes into the database.
     pub fn try_consolidate_block(&self, block_hash: &str) -> Result<()> {
         let mut state = self.state.write()?;
-- 
2.43.0


From b26528e59c02d6dc6f0e446ff323da13d1354b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 46/78] fix: the wallet showed outdated payments of addresses
 in blocks synchronized as confirmed

---
 wallet/src/repository/wallet/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 1f33222..588ceb2 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -993,7 +993,7 @@ where
             .map(|stake_output| stake_output.value)
             .sum();
 
-        let addresses = addresses.into_values().collect();
+        let addresses: Vec<Arc<model::Address>> = addresses.into_values().collect();
 
         // Persist into database
         if confirmed {
@@ -1002,7 +1002,7 @@ where
 
             self._persist_block_txns(
                 balance_movements_to_persist.clone(),
-                addresses,
+                addresses.clone(),
                 state.transaction_next_id,
                 state.utxo_set.clone(),
                 state.stake_output_set.clone(),
@@ -1012,6 +1012,10 @@ where
             // At this point state.utxo_set will only have confirmed utxos, so we can clear the
             // pending transactions
             state.pending_transactions.clear();
+            // The persisted address infos are more recent than any pending ones
+            for address in &addresses {
+                state.pending_addresses_by_path.remove(&address.path);
+            }
 
             // Update pending DR movements if they were persisted
             // balance_movements_to_persist.
-- 
2.43.0


From 0f82d2b54054f2cfcbfb440d69a45cec340a78bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 47/78] fix: the wallet counted a transaction twice in the
 local balance if submitted twice

---
 wallet/src/repository/wallet/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 588ceb2..a411ef7 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -1658,13 +1658,15 @@ where
                     .expect("Get timestamp should return a positive value");
             let protocol_version = self.params.protocol_info.current_version;
             let txn_hash = txn.transaction.versioned_hash(protocol_version);
-            state
+            let previous = state
                 .local_movements
                 .insert(txn_hash, account_mutation.balance_movement.clone());
             log::debug!("Local pending movement added for transaction id: {txn_hash})");
+            // A transaction that is submitted again replaces its own local movement
             state.balance.local = state
                 .balance
                 .local
+                .saturating_sub(previous.map_or(0, |movement| movement.amount))
                 .checked_add(account_mutation.balance_movement.amount)
                 .ok_or(Error::TransactionValueOverflow)?;
 
-- 
2.43.0


From 583c74581c3e71069309091d7a255085862e94ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 48/78] fix: the wallet kept stakes, data requests and local
 amounts of blocks it had dropped

---
 wallet/src/repository/wallet/mod.rs   | 5 +++++
 wallet/src/repository/wallet/state.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index a411ef7..a6c2451 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -276,7 +276,9 @@ where
         state.pending_transactions.clear();
         state.pending_addresses_by_path.clear();
         state.pending_addresses_by_block.clear();
+        state.pending_dr_movements.clear();
         state.local_movements.clear();
+        state.balance.local = 0;
         state.db_movements_to_update.clear();
 
         // Restore state from database
@@ -284,6 +286,9 @@ where
             .db
             .get_or_default(&keys::transaction_next_id(account))?;
         state.utxo_set = self.db.get_or_default(&keys::account_utxo_set(account))?;
+        state.stake_output_set = self
+            .db
+            .get_or_default(&keys::account_stake_output_set(account))?;
         state.used_outputs = model::clean_used_outputs(&state.used_outputs, &state.utxo_set);
         state.balance.confirmed = self.db.get_or_default(&keys::account_balance(account))?;
         state.balance.unconfirmed = state.balance.confirmed;
diff --git a/wallet/src/repository/wallet/state.rs b/wallet/src/repository/wallet/state.rs
index 732b936..a8cfe0c 100644
--- a/wallet/src/repository/wallet/state.rs
+++ b/wallet/src/repository/wallet/state.rs
@@ -103,6 +103,7 @@ impl State {
         self.balance = Default::default();
         self.last_confirmed = self.birth_date;
         self.last_sync = self.birth_date;
+        self.db_movements_to_update.clear();
         self.local_movements.clear();
         self.next_internal_index = Default::default();
         self.next_external_index = Default::default();
@@ -113,6 +114,7 @@ impl State {
         self.pending_movements.clear();
         self.pending_transactions.clear();
         self.transaction_next_id = Default::default();
+        self.stake_output_set.clear();
         self.utxo_set.clear();
         self.used_outputs.clear();
         self.transient_internal_addresses.clear();
-- 
2.43.0


From 8c72785ac1bca3aaa0840c637ecb0f2f08b38646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 49/78] fix: a reorganization made the wallet forget which
 outputs it had just spent

---
 wallet/src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wallet/src/model.rs b/wallet/src/model.rs
index b48e491..918f90b 100644
--- a/wallet/src/model.rs
+++ b/wallet/src/model.rs
@@ -420,7 +420,7 @@ pub fn clean_used_outputs(used_outputs: &UsedOutputs, utxo_set: &UtxoSet) -> Use
     let mut new_hm = UsedOutputs::default();
     let now = get_timestamp() as u64;
     for (o, &ts) in used_outputs.iter() {
-        if utxo_set.contains_key(o) && ts < now {
+        if utxo_set.contains_key(o) && ts > now {
             new_hm.insert(o.clone(), ts);
         }
     }
-- 
2.43.0


From e0f12e473fd402502ca4ebe099dce47a75c44e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:49 +0000
Subject: [PATCH 50/78] fix: a failure while indexing a block left the wallet
 with a part of it

---
 wallet/src/repository/wallet/mod.rs   | 16 +++++++++++++++-
 wallet/src/repository/wallet/state.rs |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index a6c2451..e9b2db5 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -879,6 +879,20 @@ where
         confirmed: bool,
     ) -> Result<Vec<model::BalanceMovement>> {
         let mut state = self.state.write()?;
+        let previous_state = state.clone();
+
+        // A block is either indexed entirely or not at all
+        self._index_block_transactions(&mut state, block_info, txns, confirmed)
+            .inspect_err(|_| *state = previous_state)
+    }
+
+    fn _index_block_transactions(
+        &self,
+        state: &mut State,
+        block_info: &model::Beacon,
+        txns: &[model::ExtendedTransaction],
+        confirmed: bool,
+    ) -> Result<Vec<model::BalanceMovement>> {
         let mut addresses = HashMap::new();
         let mut block_balance_movements = Vec::new();
         let mut dr_balance_movements = HashMap::new();
@@ -887,7 +901,7 @@ where
         // Index all transactions
         for txn in txns {
             // Transactions are only indexed if they do not exist in database, or if resynchronizing.
-            match self._index_transaction(&mut state, &mut addresses, txn, block_info, confirmed) {
+            match self._index_transaction(state, &mut addresses, txn, block_info, confirmed) {
                 Ok(Some(balance_movement)) => {
                     if let Transaction::DataRequest(dr_tx) = &txn.transaction {
                         let protocol_version = self
diff --git a/wallet/src/repository/wallet/state.rs b/wallet/src/repository/wallet/state.rs
index a8cfe0c..3f8dd04 100644
--- a/wallet/src/repository/wallet/state.rs
+++ b/wallet/src/repository/wallet/state.rs
@@ -25,7 +25,7 @@ pub struct StateSnapshot {
 /// TODO: refactor all synchronization-related fields (e.g. transient addresses) from `State` into
 ///  `SynchronizationState` structure so that the number of fields in `State` does not keep
 ///  growing.
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 pub struct State {
     /// Current account index
     pub account: u32,
-- 
2.43.0


From 8c940a9fedffea0d23b0dd1aae9491ad972c8792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:49 +0000
Subject: [PATCH 51/78] fix: an interrupted resynchronization left the former
 balance in the database

---
 wallet/src/repository/wallet/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index e9b2db5..a2e1c66 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2205,11 +2205,16 @@ where
     /// - External and internal address indices set to zero
     pub fn clear_chain_data(&self) -> Result<()> {
         let mut state = self.state.write()?;
-        state.clear_chain_data();
 
         let mut batch = self.db.batch();
         batch.put(&keys::wallet_last_sync(), state.birth_date)?;
         batch.put(&keys::transaction_next_id(0), 0)?;
+        batch.put(&keys::account_utxo_set(0), model::UtxoSet::default())?;
+        batch.put(
+            &keys::account_stake_output_set(0),
+            model::StakeOutputSet::default(),
+        )?;
+        batch.put(&keys::account_balance(0), model::BalanceInfo::default())?;
         batch.put(
             &keys::account_next_index(0, constants::EXTERNAL_KEYCHAIN),
             0,
@@ -2219,6 +2224,7 @@ where
             0,
         )?;
         self.db.write(batch)?;
+        state.clear_chain_data();
 
         Ok(())
     }
-- 
2.43.0


From 8f93f6636ff8b40b126746283e95d686e0808725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:49 +0000
Subject: [PATCH 52/78] fix: the wallet dropped the pending changes of a block
 that it could not persist

---
 wallet/src/repository/wallet/mod.rs | 30 ++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index a2e1c66..e3d821f 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2126,19 +2126,24 @@ where
     pub fn try_consolidate_block(&self, block_hash: &str) -> Result<()> {
         let mut state = self.state.write()?;
 
-        // Retrieve and remove pending changes of the block
-        let block_state = state.pending_blocks.remove(block_hash).ok_or_else(|| {
+        // Retrieve pending changes of the block
+        let block_state = state.pending_blocks.get(block_hash).cloned().ok_or_else(|| {
             Error::BlockConsolidation(format!("beacon not found for pending block {block_hash}"))
         })?;
-        let mut movements = state.pending_movements.remove(block_hash).ok_or_else(|| {
-            Error::BlockConsolidation(format!(
-                "balance movements not found for pending block {block_hash}"
-            ))
-        })?;
+        let mut movements = state
+            .pending_movements
+            .get(block_hash)
+            .cloned()
+            .ok_or_else(|| {
+                Error::BlockConsolidation(format!(
+                    "balance movements not found for pending block {block_hash}"
+                ))
+            })?;
         movements.extend(
             state
                 .db_movements_to_update
-                .remove(block_hash)
+                .get(block_hash)
+                .cloned()
                 .ok_or_else(|| {
                     Error::BlockConsolidation(format!(
                         "balance movements not found for pending block {block_hash}"
@@ -2148,7 +2153,8 @@ where
 
         let addresses = state
             .pending_addresses_by_block
-            .remove(block_hash)
+            .get(block_hash)
+            .cloned()
             .ok_or_else(|| {
                 Error::BlockConsolidation(format!(
                     "address infos not found for pending block {block_hash}"
@@ -2166,6 +2172,12 @@ where
             &block_state.beacon,
         )?;
 
+        // Now that they are persisted, remove pending changes of the block
+        state.pending_blocks.remove(block_hash);
+        state.pending_movements.remove(block_hash);
+        state.db_movements_to_update.remove(block_hash);
+        state.pending_addresses_by_block.remove(block_hash);
+
         // Update pending DR movements if they were persisted
         // balance_movements_to_persist.
         movements.iter().for_each(|x| {
-- 
2.43.0


From dea582ab4b9072b3183876ceb79630d7c3c9b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:08 +0000
Subject: [PATCH 53/78] fix: the wallet forgot pending blocks halfway if the
 database could not be read

---
 wallet/src/repository/wallet/mod.rs | 31 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index e3d821f..a3711cd 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -270,6 +270,24 @@ where
 
         let mut state = self.state.write()?;
 
+        // Restore state from database (read all of it before changing anything)
+        let transaction_next_id = self
+            .db
+            .get_or_default(&keys::transaction_next_id(account))?;
+        let utxo_set = self.db.get_or_default(&keys::account_utxo_set(account))?;
+        let stake_output_set = self
+            .db
+            .get_or_default(&keys::account_stake_output_set(account))?;
+        let confirmed_balance = self.db.get_or_default(&keys::account_balance(account))?;
+
+        state.transaction_next_id = transaction_next_id;
+        state.utxo_set = utxo_set;
+        state.stake_output_set = stake_output_set;
+        state.used_outputs = model::clean_used_outputs(&state.used_outputs, &state.utxo_set);
+        state.balance.confirmed = confirmed_balance;
+        state.balance.unconfirmed = state.balance.confirmed;
+        state.balance.local = 0;
+
         state.last_sync = state.last_confirmed;
         state.pending_blocks.clear();
         state.pending_movements.clear();
@@ -278,21 +296,8 @@ where
         state.pending_addresses_by_block.clear();
         state.pending_dr_movements.clear();
         state.local_movements.clear();
-        state.balance.local = 0;
         state.db_movements_to_update.clear();
 
-        // Restore state from database
-        state.transaction_next_id = self
-            .db
-            .get_or_default(&keys::transaction_next_id(account))?;
-        state.utxo_set = self.db.get_or_default(&keys::account_utxo_set(account))?;
-        state.stake_output_set = self
-            .db
-            .get_or_default(&keys::account_stake_output_set(account))?;
-        state.used_outputs = model::clean_used_outputs(&state.used_outputs, &state.utxo_set);
-        state.balance.confirmed = self.db.get_or_default(&keys::account_balance(account))?;
-        state.balance.unconfirmed = state.balance.confirmed;
-
         Ok(())
     }
 
-- 
2.43.0


From e2841e28e49b4282f19e87fda73b885340eec293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 54/78] fix: the wallet took transactions for those of others
 if the database could not be read

---
 wallet/src/repository/wallet/mod.rs | 30 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index a3711cd..3a5d9ab 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -841,21 +841,23 @@ where
                     .contains_key(&tally.dr_pointer.to_string())
                     || self
                         .db
-                        .get(&keys::transactions_index(tally.dr_pointer.as_ref()))
-                        .is_ok()
+                        .get_opt(&keys::transactions_index(tally.dr_pointer.as_ref()))?
+                        .is_some()
             } else {
                 false
             };
 
-            let check_db_and_transient = |output: &ValueTransferOutput| {
-                self.db.get(&keys::pkh(&output.pkh)).is_ok()
+            let check_db_and_transient = |output: &ValueTransferOutput| -> Result<bool> {
+                Ok(self.db.get_opt(&keys::pkh(&output.pkh))?.is_some()
                     || state.transient_external_addresses.contains_key(&output.pkh)
-                    || state.transient_internal_addresses.contains_key(&output.pkh)
+                    || state.transient_internal_addresses.contains_key(&output.pkh))
             };
-            let own_outputs: Vec<usize> = outputs
-                .iter()
-                .positions(check_db_and_transient)
-                .collect();
+            let mut own_outputs: Vec<usize> = vec![];
+            for (index, output) in outputs.iter().enumerate() {
+                if check_db_and_transient(output)? {
+                    own_outputs.push(index);
+                }
+            }
             // Check if any input or output is from the wallet (input is an UTXO or output points to any wallet's pkh)
             if is_own_tally
                 || inputs.iter().any(|input| {
@@ -961,15 +963,11 @@ where
                     }
                 }
                 // The DR transaction was confirmed but the tally wasn't. Fetch the dr from DB.
-                else if let Ok((dr_movement, txn_id)) = self
+                else if let Some(txn_id) = self
                     .db
-                    .get(&keys::transactions_index(tally.dr_pointer.as_ref()))
-                    .and_then(|txn_id| {
-                        self.db
-                            .get(&keys::transaction_movement(state.account, txn_id))
-                            .map(|dr_movement| (dr_movement, txn_id))
-                    })
+                    .get_opt(&keys::transactions_index(tally.dr_pointer.as_ref()))?
                 {
+                    let dr_movement = self.get_transaction(state.account, txn_id)?;
                     log::debug!("Found a tally for data request {txn_id:?} that was in DB");
                     match &dr_movement.transaction.data.clone() {
                         model::TransactionData::DataRequest(dr_data) => {
-- 
2.43.0


From afc52a3df758f73398831f92fb548e464eaef40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:31 +0000
Subject: [PATCH 55/78] fix: a malformed reveal stopped the wallet from
 synchronizing any further

---
 wallet/src/repository/wallet/mod.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 3a5d9ab..7e88535 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -2431,19 +2431,23 @@ fn build_tally_report(
                 .reveals
                 .iter()
                 .map(|(pkh, reveal_txn)| {
-                    RadonTypes::try_from(reveal_txn.body.reveal.as_slice())
-                        .map(|x| {
-                            (
-                                *pkh,
-                                model::Reveal {
-                                    value: x.to_string(),
-                                    in_consensus: true,
-                                },
+                    // The protocol accepts malformed reveals, and takes them for errors
+                    let value = RadonTypes::try_from(reveal_txn.body.reveal.as_slice())
+                        .unwrap_or_else(|_| {
+                            RadonTypes::from(
+                                RadonError::try_from(RadError::MalformedReveal).unwrap(),
                             )
-                        })
-                        .map_err(|err| Error::RevealRadDecode(err.to_string()))
+                        });
+
+                    (
+                        *pkh,
+                        model::Reveal {
+                            value: value.to_string(),
+                            in_consensus: true,
+                        },
+                    )
                 })
-                .collect::<Result<HashMap<PublicKeyHash, model::Reveal>>>()?;
+                .collect();
 
             // Set not `in_consensus` reveals
             for pkh in &tally.out_of_consensus {
-- 
2.43.0


From afb13d118bc091f1a0437ad374f1dfd5361b70db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:05 +0000
Subject: [PATCH 56/78] fix: locking a wallet in one session kept blocks from
 it in another

---
 wallet/src/actors/app/state.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wallet/src/actors/app/state.rs b/wallet/src/actors/app/state.rs
index 27fdb12..1d3ca0e 100644
--- a/wallet/src/actors/app/state.rs
+++ b/wallet/src/actors/app/state.rs
@@ -136,7 +136,7 @@ impl State {
             .ok_or(Error::SessionNotFound)
     }
 
-    /// Remove a wallet completely.
+    /// Remove a wallet from a session.
     pub fn remove_wallet(&mut self, session_id: &types::SessionId, wallet_id: &str) -> Result<()> {
         let session = self
             .sessions
@@ -144,7 +144,15 @@ impl State {
             .ok_or(Error::SessionNotFound)?;
 
         session.wallets.remove(wallet_id);
-        self.wallets.remove(wallet_id);
+
+        // The wallet may have been unlocked in another session in the meantime, which still needs it
+        if self
+            .wallets
+            .get(wallet_id)
+            .is_some_and(|wallet| wallet.session_id == *session_id)
+        {
+            self.wallets.remove(wallet_id);
+        }
 
         Ok(())
     }
-- 
2.43.0


From 0cff200e74c807e46c2d31a107053ef68e8062fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:26 +0000
Subject: [PATCH 57/78] fix: a wrong password stopped an open wallet's
 synchronization

---
 wallet/src/actors/app/methods.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wallet/src/actors/app/methods.rs b/wallet/src/actors/app/methods.rs
index 300d266..efe58b3 100644
--- a/wallet/src/actors/app/methods.rs
+++ b/wallet/src/actors/app/methods.rs
@@ -384,11 +384,6 @@ impl App {
         wallet_id: String,
         password: types::Password,
     ) -> ResponseActFuture<types::UnlockedWallet> {
-        // If a synchronization from a previous session is still running, set `stop_syncing` to
-        // `true` so as to signal that it must stop as soon as possible
-        if let Some(wallet) = self.state.get_current_wallet_session(wallet_id.clone()) {
-            wallet.set_stop_syncing().expect("Lock error")
-        }
         let id = wallet_id.clone();
         let f = self
             .params
@@ -403,6 +398,12 @@ impl App {
                     data,
                 } = res;
 
+                // If a synchronization from a previous session is still running, set `stop_syncing`
+                // to `true` so as to signal that it must stop as soon as possible
+                if let Some(wallet) = slf.state.get_current_wallet_session(wallet_id.clone()) {
+                    wallet.set_stop_syncing().expect("Lock error")
+                }
+
                 slf.state
                     .create_session(session_id.clone(), wallet_id.clone(), wallet.clone());
 
-- 
2.43.0


From f05625ce445aa7394b1b5b85cce08ea150e03939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:09 +0000
Subject: [PATCH 58/78] fix: a truncated encrypted master key made the wallet
 panic

---
 wallet/src/crypto.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wallet/src/crypto.rs b/wallet/src/crypto.rs
index ac380d2..6e59092 100644
--- a/wallet/src/crypto.rs
+++ b/wallet/src/crypto.rs
@@ -27,6 +27,9 @@ pub enum Error {
     InvalidKeyPath(String),
     #[error("The AES encryption/decryption failed: {0}")]
     Aes(cipher::Error),
+    /// The encrypted value does not even contain the initialization vector and the salt.
+    #[error("The encrypted value is too short")]
+    CiphertextTooShort,
 }
 
 /// Result type for cryptographic operations that can fail.
@@ -131,6 +134,10 @@ pub fn encrypt_cbc(value: &[u8], password: &[u8]) -> Result<Vec<u8>> {
 
 /// AES-CBC decryption of a given u8 given as IV|SALT|CIPHERTEXT slice with the provided password.
 pub fn decrypt_cbc(ciphertext: &[u8], password: &[u8]) -> Result<Vec<u8>> {
+    if ciphertext.len() < IV_LENGTH + SALT_LENGTH {
+        return Err(Error::CiphertextTooShort);
+    }
+
     let mut iv = ciphertext.to_vec();
     let mut salt = iv.split_off(IV_LENGTH);
     let true_ciphertext = salt.split_off(SALT_LENGTH);
-- 
2.43.0


From b6df6bbe577378d83c1e9248fa588f7453b50556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:03 +0000
Subject: [PATCH 59/78] fix: a birth date that the node knows no block for made
 the wallet panic

---
 wallet/src/actors/worker/methods.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wallet/src/actors/worker/methods.rs b/wallet/src/actors/worker/methods.rs
index 4f3abc0..f8a8dc9 100644
--- a/wallet/src/actors/worker/methods.rs
+++ b/wallet/src/actors/worker/methods.rs
@@ -153,9 +153,7 @@ impl Worker {
                 // Use the current epoch as birth date
                 let gen_fut = self.get_block_chain(0, -confirm_superblock_period);
                 let gen_res: Vec<ChainEntry> = futures::executor::block_on(gen_fut)?;
-                let gen_entry = gen_res
-                    .first()
-                    .expect("It should always found a superconsolidated block");
+                let gen_entry = gen_res.first().ok_or_else(no_block_found)?;
                 let get_gen_future = self.get_block(gen_entry.1.clone());
                 let (block, _confirmed) = futures::executor::block_on(get_gen_future)?;
                 let protocol_version = self
@@ -182,9 +180,7 @@ impl Worker {
                     2,
                 );
                 let gen_res: Vec<ChainEntry> = futures::executor::block_on(gen_fut)?;
-                let gen_entry = gen_res.first().expect(
-                    "It should always find a last consolidated block for a any epoch number",
-                );
+                let gen_entry = gen_res.first().ok_or_else(no_block_found)?;
                 let get_gen_future = self.get_block(gen_entry.1.clone());
                 let (block, _confirmed_1) = futures::executor::block_on(get_gen_future)?;
                 let protocol_version = self
@@ -1296,6 +1292,10 @@ impl Worker {
     }
 }
 
+fn no_block_found() -> Error {
+    Error::Node(anyhow::anyhow!("the node knows no block as of the birth date"))
+}
+
 fn validate_birth_date(
     birth_date: u32,
     checkpoint_zero_timestamp: i64,
-- 
2.43.0


From dec03e8ac64ec27c18012fadbae4587b5ee7822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:35 +0000
Subject: [PATCH 60/78] fix: payments at the birth date of a wallet were missed
 when there is no block before it

---
 wallet/src/actors/worker/methods.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/wallet/src/actors/worker/methods.rs b/wallet/src/actors/worker/methods.rs
index f8a8dc9..c3369bb 100644
--- a/wallet/src/actors/worker/methods.rs
+++ b/wallet/src/actors/worker/methods.rs
@@ -181,16 +181,25 @@ impl Worker {
                 );
                 let gen_res: Vec<ChainEntry> = futures::executor::block_on(gen_fut)?;
                 let gen_entry = gen_res.first().ok_or_else(no_block_found)?;
-                let get_gen_future = self.get_block(gen_entry.1.clone());
-                let (block, _confirmed_1) = futures::executor::block_on(get_gen_future)?;
-                let protocol_version = self
-                    .node
-                    .protocol_info
-                    .all_versions
-                    .version_for_epoch(block.block_header.beacon.checkpoint);
-                CheckpointBeacon {
-                    checkpoint: block.block_header.beacon.checkpoint,
-                    hash_prev_block: block.versioned_hash(protocol_version),
+                if gen_entry.0 == 0 || gen_entry.0 >= epoch {
+                    // There are no blocks right before the birth date. Given that the block in the
+                    // beacon is not synchronized, none but the genesis can be used instead
+                    CheckpointBeacon {
+                        checkpoint: 0,
+                        hash_prev_block: self.params.genesis_prev_hash,
+                    }
+                } else {
+                    let get_gen_future = self.get_block(gen_entry.1.clone());
+                    let (block, _confirmed_1) = futures::executor::block_on(get_gen_future)?;
+                    let protocol_version = self
+                        .node
+                        .protocol_info
+                        .all_versions
+                        .version_for_epoch(block.block_header.beacon.checkpoint);
+                    CheckpointBeacon {
+                        checkpoint: block.block_header.beacon.checkpoint,
+                        hash_prev_block: block.versioned_hash(protocol_version),
+                    }
                 }
             }
             None => {
-- 
2.43.0


From d4b549aa23aa3e23ac0e75d50d63e0cba4e5e5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:35 +0000
Subject: [PATCH 61/78] fix: a wallet made again without a name was listed by
 its old name

---
 wallet/src/repository/wallets/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wallet/src/repository/wallets/mod.rs b/wallet/src/repository/wallets/mod.rs
index 862cacd..6fa7bd3 100644
--- a/wallet/src/repository/wallets/mod.rs
+++ b/wallet/src/repository/wallets/mod.rs
@@ -84,6 +84,9 @@ impl<T: Database> Wallets<T> {
         if let Some(name) = name.as_ref() {
             wbatch.put(&keys::wallet_name(), name.clone())?;
             batch.put(&keys::wallet_id_name(id), name.clone())?;
+        } else if self.db.contains(&keys::wallet_id_name(id))? {
+            // Forget the name of the wallet that is being overwritten, or was deleted before
+            batch.put(&keys::wallet_id_name(id), String::new())?;
         }
 
         if let Some(description) = description {
-- 
2.43.0


From 39c76f4bac874c375076d36a3646d92afea59f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:35 +0000
Subject: [PATCH 62/78] fix: some exported xprvDouble keys could not be
 imported

---
 wallet/src/actors/app/methods.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wallet/src/actors/app/methods.rs b/wallet/src/actors/app/methods.rs
index efe58b3..0c395f8 100644
--- a/wallet/src/actors/app/methods.rs
+++ b/wallet/src/actors/app/methods.rs
@@ -1106,7 +1106,8 @@ pub fn validate_xprv(
 
 /// Split a double XPRV string into internal and external keys
 pub fn split_xprv_double(xprv_double_key: String) -> Result<(types::Password, types::Password)> {
-    let ocurrences: Vec<(usize, &str)> = xprv_double_key.match_indices("xprv").collect();
+    // The separator is included because "xprv" alone can also show up in the data of the keys
+    let ocurrences: Vec<(usize, &str)> = xprv_double_key.match_indices("xprv1").collect();
     // xprvDouble should only have 2 ocurrences
     if ocurrences.len() != 2 {
         return Err(validation_error(app::field_error(
-- 
2.43.0


From 771b18157840528c73c2d308d4657ab3fcae868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:46 +0000
Subject: [PATCH 63/78] fix: a payment with a fixed fee could exceed the weight
 limit

---
 data_structures/src/transaction_factory.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index 703c9cb..e162b30 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -412,6 +412,15 @@ pub trait OutputsCollection {
                 let inputs =
                     self.take_enough_utxos(amount, timestamp, block_number_limit, utxo_strategy)?;
 
+                // The weight grows with every input beyond the first one
+                let change_outputs = usize::from(inputs.total_value > amount);
+                calculate_weight(
+                    inputs.pointers.len(),
+                    outputs.len() + change_outputs,
+                    dr_output,
+                    max_weight,
+                )?;
+
                 Ok(TransactionInfo {
                     fee: absolute_fee,
                     inputs,
-- 
2.43.0


From 56ace24c1559e43dd3fcc34fbe0edb20a4569309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:44 +0000
Subject: [PATCH 64/78] Revert "fix: a payment with a fixed fee could exceed
 the weight limit"

This reverts commit 771b18157840528c73c2d308d4657ab3fcae868e.
---
 data_structures/src/transaction_factory.rs | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/data_structures/src/transaction_factory.rs b/data_structures/src/transaction_factory.rs
index e162b30..703c9cb 100644
--- a/data_structures/src/transaction_factory.rs
+++ b/data_structures/src/transaction_factory.rs
@@ -412,15 +412,6 @@ pub trait OutputsCollection {
                 let inputs =
                     self.take_enough_utxos(amount, timestamp, block_number_limit, utxo_strategy)?;
 
-                // The weight grows with every input beyond the first one
-                let change_outputs = usize::from(inputs.total_value > amount);
-                calculate_weight(
-                    inputs.pointers.len(),
-                    outputs.len() + change_outputs,
-                    dr_output,
-                    max_weight,
-                )?;
-
                 Ok(TransactionInfo {
                     fee: absolute_fee,
                     inputs,
-- 
2.43.0


From c77101d18de5cfdb72e0eeea80958bebd32dbc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:48 +0000
Subject: [PATCH 65/78] fix: the wallet created payments with a fixed fee above
 the weight limit

---
 wallet/src/repository/wallet/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/wallet/src/repository/wallet/mod.rs b/wallet/src/repository/wallet/mod.rs
index 7e88535..17f0560 100644
--- a/wallet/src/repository/wallet/mod.rs
+++ b/wallet/src/repository/wallet/mod.rs
@@ -30,7 +30,8 @@ use witnet_data_structures::{
         VTTransactionBody,
     },
     transaction_factory::{
-        CollectedOutputs, OutputsCollection, TransactionInfo, insert_change_output,
+        CollectedOutputs, OutputsCollection, TransactionInfo, calculate_weight,
+        insert_change_output,
     },
     utxo_pool::UtxoSelectionStrategy,
 };
@@ -1420,6 +1421,15 @@ where
             max_weight,
         )?;
 
+        let change = inputs.total_value - output_value - fee.as_nanowits();
+        // A transaction above the weight limit would never be included in a block
+        calculate_weight(
+            inputs.pointers.len(),
+            outputs.len() + usize::from(change > 0),
+            dr_output,
+            max_weight,
+        )?;
+
         // For data requests, this will set the change address to the one from the first input.
         // For any other transaction type, a fresh address is generated in the internal keychain.
         let change_pkh = self.calculate_change_address(
@@ -1429,11 +1439,7 @@ where
         )?;
 
         let mut outputs = outputs;
-        insert_change_output(
-            &mut outputs,
-            change_pkh,
-            inputs.total_value - output_value - fee.as_nanowits(),
-        );
+        insert_change_output(&mut outputs, change_pkh, change);
 
         Ok(TransactionComponents {
             fee,
-- 
2.43.0


From 97bb13bf2b04a737061c97911432af6dab6fcd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:54 +0000
Subject: [PATCH 66/78] fix: xprvDouble data with malformed keys were accepted

---
 wallet/src/actors/app/methods.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/wallet/src/actors/app/methods.rs b/wallet/src/actors/app/methods.rs
index 0c395f8..963d81f 100644
--- a/wallet/src/actors/app/methods.rs
+++ b/wallet/src/actors/app/methods.rs
@@ -1108,13 +1108,20 @@ pub fn validate_xprv(
 pub fn split_xprv_double(xprv_double_key: String) -> Result<(types::Password, types::Password)> {
     // The separator is included because "xprv" alone can also show up in the data of the keys
     let ocurrences: Vec<(usize, &str)> = xprv_double_key.match_indices("xprv1").collect();
-    // xprvDouble should only have 2 ocurrences
-    if ocurrences.len() != 2 {
-        return Err(validation_error(app::field_error(
-            "seed_data",
-            "Invalid number of XPRV keys found for xprvDouble type",
-        )));
-    }
-    let (internal, external) = xprv_double_key.split_at(ocurrences[1].0);
+    // xprvDouble should only have 2 ocurrences, each of them starting a well-formed key
+    let keys = match ocurrences.as_slice() {
+        [_, (second, _)] => Some(xprv_double_key.split_at(*second)),
+        _ => None,
+    };
+    let (internal, external) = keys
+        .filter(|(internal, external)| {
+            bech32::decode(internal).is_ok() && bech32::decode(external).is_ok()
+        })
+        .ok_or_else(|| {
+            validation_error(app::field_error(
+                "seed_data",
+                "Invalid number of XPRV keys found for xprvDouble type",
+            ))
+        })?;
     Ok((internal.into(), external.into()))
 }
-- 
2.43.0


From bf909ce11965f60e7cf57bd76a52a535a35bff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:56 +0000
Subject: [PATCH 67/78] fix: a network range was freed while another inbound
 session was still using it

---
 p2p/src/sessions/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/p2p/src/sessions/mod.rs b/p2p/src/sessions/mod.rs
index 69448a8..a002713 100644
--- a/p2p/src/sessions/mod.rs
+++ b/p2p/src/sessions/mod.rs
@@ -272,6 +272,16 @@ where
         // removing to take its place
         if session_type == SessionType::Inbound {
             self.inbound_network_ranges.remove_address(&address);
+
+            // The range is still taken if any of the remaining inbound sessions belongs to it
+            for remaining in self
+                .inbound_unconsolidated
+                .collection
+                .keys()
+                .chain(self.inbound_consolidated.collection.keys())
+            {
+                self.inbound_network_ranges.insert_address(remaining);
+            }
         }
 
         Ok(())
-- 
2.43.0


From 9a5e0be1f8d5d6e6052f2145a323ed86839f40c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:59 +0000
Subject: [PATCH 68/78] fix: a session that could not be consolidated was lost
 and kept its network range taken

---
 p2p/src/sessions/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/p2p/src/sessions/mod.rs b/p2p/src/sessions/mod.rs
index a002713..a0683ac 100644
--- a/p2p/src/sessions/mod.rs
+++ b/p2p/src/sessions/mod.rs
@@ -302,9 +302,15 @@ where
         let cons_sessions = self.get_sessions(session_type, SessionStatus::Consolidated)?;
 
         // Register session into consolidated collection
-        cons_sessions.register_session(address, session_info.reference)?;
+        let result = cons_sessions.register_session(address, session_info.reference.clone());
 
-        Ok(())
+        // If the session could not be consolidated, it stays unconsolidated until it is unregistered
+        if result.is_err() {
+            self.get_sessions(session_type, SessionStatus::Unconsolidated)?
+                .register_session(address, session_info.reference)?;
+        }
+
+        result
     }
     /// Method to mark a session as consensus safe
     pub fn consensus_session(&mut self, address: SocketAddr) -> Result<(), SessionsError> {
-- 
2.43.0


From 5505c09c4480511df1bd50a0238246331ecd5cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:42 +0000
Subject: [PATCH 69/78] fix: the lowest priority in a block depended on where
 its transactions without fee were

---
 data_structures/src/chain/priority.rs | 40 ++++++++-------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/data_structures/src/chain/priority.rs b/data_structures/src/chain/priority.rs
index 35a046f..6a40ef6 100644
--- a/data_structures/src/chain/priority.rs
+++ b/data_structures/src/chain/priority.rs
@@ -403,13 +403,9 @@ impl Priorities {
         if priority > self.drt_highest {
             self.drt_highest = priority;
         }
-        // Update lowest
-        if let Some(drt_lowest) = &self.drt_lowest {
-            if &priority < drt_lowest {
-                self.drt_lowest = Some(priority);
-            }
-        } else if priority != 0 {
-            self.drt_lowest = Some(priority);
+        // Update lowest, disregarding transactions that pay no fee
+        if priority != 0 {
+            option_update_if_less_than(&mut self.drt_lowest, Some(priority));
         }
     }
 
@@ -421,13 +417,9 @@ impl Priorities {
         if priority > self.vtt_highest {
             self.vtt_highest = priority;
         }
-        // Update lowest
-        if let Some(vtt_lowest) = &self.vtt_lowest {
-            if &priority < vtt_lowest {
-                self.vtt_lowest = Some(priority);
-            }
-        } else if priority != 0 {
-            self.vtt_lowest = Some(priority);
+        // Update lowest, disregarding transactions that pay no fee
+        if priority != 0 {
+            option_update_if_less_than(&mut self.vtt_lowest, Some(priority));
         }
     }
 
@@ -439,13 +431,9 @@ impl Priorities {
         if priority > self.st_highest {
             self.st_highest = priority;
         }
-        // Update lowest
-        if let Some(st_lowest) = &self.st_lowest {
-            if &priority < st_lowest {
-                self.st_lowest = Some(priority);
-            }
-        } else if priority != 0 {
-            self.st_lowest = Some(priority);
+        // Update lowest, disregarding transactions that pay no fee
+        if priority != 0 {
+            option_update_if_less_than(&mut self.st_lowest, Some(priority));
         }
     }
 
@@ -457,13 +445,9 @@ impl Priorities {
         if priority > self.ut_highest {
             self.ut_highest = priority;
         }
-        // Update lowest
-        if let Some(ut_lowest) = &self.ut_lowest {
-            if &priority < ut_lowest {
-                self.ut_lowest = Some(priority);
-            }
-        } else if priority != 0 {
-            self.ut_lowest = Some(priority);
+        // Update lowest, disregarding transactions that pay no fee
+        if priority != 0 {
+            option_update_if_less_than(&mut self.ut_lowest, Some(priority));
         }
     }
 }
-- 
2.43.0


From 1e827536c800284c112c0f43eafa841ca292621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:12 +0000
Subject: [PATCH 70/78] fix: an address for another environment was reported
 with the prefix expected, not the one found

---
 data_structures/src/chain/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 20664b6..a932bb1 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -1556,7 +1556,7 @@ impl PublicKeyHash {
 
         if prefix != expected_prefix {
             Err(PublicKeyHashParseError::WrongEnvironment {
-                prefix: expected_prefix_str,
+                prefix: prefix.to_string(),
                 expected_environment: environment,
             })
         } else {
-- 
2.43.0


From b01ff958f8fe31589e9fc0c34364d65052781bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:12 +0000
Subject: [PATCH 71/78] fix: an output pointer followed by anything else was
 accepted

---
 data_structures/src/chain/mod.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index a932bb1..919aaad 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -3704,22 +3704,15 @@ impl fmt::Debug for OutputPointer {
 impl FromStr for OutputPointer {
     type Err = OutputPointerParseError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        if !s.trim().contains(':') {
-            return Err(OutputPointerParseError::MissingColon);
-        }
-
-        let mut tokens = s.trim().split(':');
+        let (transaction_id, output_index) = s
+            .trim()
+            .split_once(':')
+            .ok_or(OutputPointerParseError::MissingColon)?;
 
-        let transaction_id = tokens
-            .next()
-            .ok_or(OutputPointerParseError::Hash(
-                HashParseError::InvalidLength(0),
-            ))?
+        let transaction_id = transaction_id
             .parse()
             .map_err(OutputPointerParseError::Hash)?;
-        let output_index = tokens
-            .next()
-            .ok_or(OutputPointerParseError::MissingColon)?
+        let output_index = output_index
             .parse::<u32>()
             .map_err(OutputPointerParseError::ParseIntError)?;
 
-- 
2.43.0


From ade10a5d0ab5417d6a1f226e267d51b751fe7bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:12 +0000
Subject: [PATCH 72/78] fix: recovering a signature from no bytes panicked

---
 data_structures/src/chain/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index 919aaad..ddb05e3 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -1817,9 +1817,12 @@ impl KeyedSignature {
         compact: &[u8],
         message: &[u8],
     ) -> Result<Self, Secp256k1ConversionError> {
-        let recid = RecoveryId::from_i32(i32::from(compact[0]))
+        let (recid, compact) = compact
+            .split_first()
+            .ok_or(Secp256k1ConversionError::FailSignatureConversion)?;
+        let recid = RecoveryId::from_i32(i32::from(*recid))
             .map_err(|e| Secp256k1ConversionError::Secp256k1 { inner: e })?;
-        let recoverable = RecoverableSignature::from_compact(&compact[1..], recid)
+        let recoverable = RecoverableSignature::from_compact(compact, recid)
             .map_err(|e| Secp256k1ConversionError::Secp256k1 { inner: e })?;
 
         Self::from_recoverable(&recoverable, message)
-- 
2.43.0


From 5ea2f4588f9316b12482d23624f0cc35825b6abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:20 +0000
Subject: [PATCH 73/78] fix: a signature that is not of its key was written as
 one to recover it from

---
 data_structures/src/chain/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/data_structures/src/chain/mod.rs b/data_structures/src/chain/mod.rs
index ddb05e3..fcf7f10 100644
--- a/data_structures/src/chain/mod.rs
+++ b/data_structures/src/chain/mod.rs
@@ -1847,14 +1847,16 @@ impl KeyedSignature {
         for i in 0..4 {
             recoverable_bytes[0] = i;
 
-            let recovered = KeyedSignature::from_recoverable_slice(&recoverable_bytes, message)?;
-
-            if recovered.public_key == self.public_key {
-                break;
+            // Not every recovery ID leads to a public key
+            match KeyedSignature::from_recoverable_slice(&recoverable_bytes, message) {
+                Ok(recovered) if recovered.public_key == self.public_key => {
+                    return Ok(recoverable_bytes);
+                }
+                _ => continue,
             }
         }
 
-        Ok(recoverable_bytes)
+        Err(Secp256k1ConversionError::FailPublicKeyConversion)
     }
 }
 
-- 
2.43.0


From 268ba4a9dfe396e0d34d7c34e289b54d306f49d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:33 +0000
Subject: [PATCH 74/78] fix: a configuration file with a log section but no
 level in it was refused

---
 config/src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config/src/config.rs b/config/src/config.rs
index cde4dde..616c489 100644
--- a/config/src/config.rs
+++ b/config/src/config.rs
@@ -142,6 +142,7 @@ pub struct Config {
 pub struct Log {
     /// Level for the log messages.
     #[partial_struct(serde(
+        default,
         deserialize_with = "as_log_filter",
         serialize_with = "as_log_filter_string"
     ))]
-- 
2.43.0


From 130e2dcf87b65177f4ee1ae53bd05f04673f0f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:06 +0000
Subject: [PATCH 75/78] fix: the documented log level "none" logged as much as
 "info"

---
 config/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/src/config.rs b/config/src/config.rs
index 616c489..ad30c6b 100644
--- a/config/src/config.rs
+++ b/config/src/config.rs
@@ -1262,7 +1262,7 @@ where
 {
     let level_string = String::deserialize(deserializer)?;
     let level = match level_string.as_ref() {
-        "off" => log::LevelFilter::Off,
+        "off" | "none" => log::LevelFilter::Off,
         "error" => log::LevelFilter::Error,
         "warn" => log::LevelFilter::Warn,
         "debug" => log::LevelFilter::Debug,
-- 
2.43.0


From 58c6d19776fce10f5a593f42cac21bd51e940b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:18 +0000
Subject: [PATCH 76/78] fix: do not consolidate a local superblock that is not
 the sync target when synchronizing

---
 node/src/actors/chain_manager/handlers.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/node/src/actors/chain_manager/handlers.rs b/node/src/actors/chain_manager/handlers.rs
index 63f31e1..6d6e865 100644
--- a/node/src/actors/chain_manager/handlers.rs
+++ b/node/src/actors/chain_manager/handlers.rs
@@ -473,6 +473,26 @@ impl Handler<AddBlocks> for ChainManager {
                         .sync_target
                         .expect("The sync target should be defined for synchronizing");
 
+                    // A superblock that was built locally but never consolidated may have been built
+                    // from different blocks than the one that the network agreed upon. Restore from
+                    // storage so it is not taken as valid when consolidating the sync target.
+                    let local_superblock = act.chain_state.superblock_state.get_beacon();
+                    if local_superblock != act.get_superblock_beacon()
+                        && local_superblock != sync_target.superblock
+                        && local_superblock.checkpoint <= sync_target.superblock.checkpoint
+                    {
+                        log::warn!(
+                            "Local superblock {local_superblock:?} differs from the sync target {:?}",
+                            sync_target.superblock
+                        );
+
+                        act.update_state_machine(StateMachine::WaitingConsensus, ctx);
+                        act.initialize_from_storage(ctx);
+                        log::info!("Restored chain state from storage");
+
+                        return Box::pin(actix::fut::err(()));
+                    }
+
                     let sync_superblock =
                         act.sync_superblock
                             .as_ref()
-- 
2.43.0


From 2d0864ed95011c6945f5b9494be9db6e1fa3fb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:58 +0000
Subject: [PATCH 77/78] fix: derive PartialStruct for structs with a raw
 identifier as name

---
 partial_struct/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/partial_struct/src/lib.rs b/partial_struct/src/lib.rs
index 00113b5..1119319 100644
--- a/partial_struct/src/lib.rs
+++ b/partial_struct/src/lib.rs
@@ -197,7 +197,8 @@ fn get_data(orig: &syn::Data) -> syn::Data {
 /// prepends `Partial` to the given identifier `ident`.
 fn get_ident(ident: &syn::Ident) -> syn::Ident {
     let mut name = "Partial".to_string();
-    name.push_str(&ident.to_string());
+    // A raw identifier (`r#type`) needs no prefix once it is preceded by `Partial`
+    name.push_str(ident.to_string().trim_start_matches("r#"));
 
     syn::Ident::new(&name, ident.span())
 }
-- 
2.43.0


From f565b2dc38ce9d5ba5260e4ccbf7d61fe7b9bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:32 +0000
Subject: [PATCH 78/78] fix: follow merkle proofs of more levels than an index
 has bits

---
 crypto/src/merkle.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crypto/src/merkle.rs b/crypto/src/merkle.rs
index 4c51de6..20a4be9 100644
--- a/crypto/src/merkle.rs
+++ b/crypto/src/merkle.rs
@@ -309,7 +309,11 @@ impl<T: Copy + PartialEq> InclusionProof<T> {
         let mut elem = element;
         let hash_concat = self.hash_concat;
         for (level, h) in self.lemma.iter().enumerate() {
-            let h_on_the_left = ((self.index >> level) & 1) == 1;
+            // An index has no bits for the levels above its width
+            let direction = u32::try_from(level)
+                .ok()
+                .and_then(|level| self.index.checked_shr(level));
+            let h_on_the_left = direction.is_some_and(|x| x & 1 == 1);
             elem = if h_on_the_left {
                 hash_concat(*h, elem)
             } else {
-- 
2.43.0

