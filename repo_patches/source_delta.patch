From 6e49f56b220c3949b11cfe75a7f42b3a80e43e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 01/25] fix: reject transfers whose total amount overflows

---
 elusiv/src/processor/proof.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 5cca361..d97a2f0 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -1139,6 +1139,12 @@ fn check_join_split_public_inputs(
         ElusivError::InvalidAmount
     );
 
+    // The total amount (the public signal constraining the spent notes) is not allowed to overflow
+    guard!(
+        public_inputs.amount.checked_add(public_inputs.fee).is_some(),
+        ElusivError::InvalidAmount
+    );
+
     let active_tree_index = storage_account.get_trees_count();
 
     let mut roots = Vec::new();
-- 
2.43.0


From 325e73b8c08595bd4478839647e2c60993dfa288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:07 +0000
Subject: [PATCH 02/25] fix: do not close a Merkle tree while its last
 commitments can still be inserted

---
 elusiv/src/processor/accounts.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elusiv/src/processor/accounts.rs b/elusiv/src/processor/accounts.rs
index 420faf1..7cf449d 100644
--- a/elusiv/src/processor/accounts.rs
+++ b/elusiv/src/processor/accounts.rs
@@ -179,6 +179,15 @@ pub fn reset_active_merkle_tree(
         ElusivError::MerkleTreeIsNotFullYet
     );
 
+    // A batch that fits exactly has to be inserted into the active MT (its hashing could already be in progress)
+    if !storage_account.is_full() {
+        let commitments_count = storage_account.get_next_commitment_ptr() as usize;
+        guard!(
+            commitments_count + queue.next_batch()?.0.len() > MT_COMMITMENT_COUNT,
+            ElusivError::MerkleTreeIsNotFullYet
+        );
+    }
+
     storage_account.set_trees_count(&(active_merkle_tree_index.checked_add(1).ok_or(MATH_ERR)?));
     active_nullifier_account.set_root(&storage_account.get_root()?);
     storage_account.reset();
-- 
2.43.0


From d68f7f22892fb57826d0ca4c4c8c9c26c6ace620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:37 +0000
Subject: [PATCH 03/25] fix: only pay back the token account rent of rejected
 transfers that provided it

---
 elusiv/src/processor/proof.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index d97a2f0..c4d51f6 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -884,12 +884,19 @@ pub fn finalize_verification_transfer_token<'a>(
             None,
         )?;
 
-        // `pool` transfers `commitment_hash_fee` and `associated_token_account_rent` to `fee_collector` (lamports)
-        transfer_lamports_from_pda_checked(
-            pool,
-            fee_collector,
-            (data.commitment_hash_fee + spl_token_account_rent()?)?.0,
-        )?;
+        // `pool` transfers `commitment_hash_fee` and `associated_token_account_rent?` to `fee_collector` (lamports)
+        let uses_associated_token_account = match &request {
+            ProofRequest::Send(public_inputs) => {
+                public_inputs.recipient_is_associated_token_account
+            }
+            _ => false,
+        };
+        let lamports = if uses_associated_token_account {
+            (data.commitment_hash_fee + spl_token_account_rent()?)?
+        } else {
+            data.commitment_hash_fee
+        };
+        transfer_lamports_from_pda_checked(pool, fee_collector, lamports.0)?;
 
         return Ok(());
     }
@@ -1141,7 +1148,10 @@ fn check_join_split_public_inputs(
 
     // The total amount (the public signal constraining the spent notes) is not allowed to overflow
     guard!(
-        public_inputs.amount.checked_add(public_inputs.fee).is_some(),
+        public_inputs
+            .amount
+            .checked_add(public_inputs.fee)
+            .is_some(),
         ElusivError::InvalidAmount
     );
 
-- 
2.43.0


From 25311d5e1b8ba45fc7e2e171c12134ce3c8fc353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 04/25] fix: do not pay the optional fee twice in solana-pay
 transfers

---
 elusiv/src/processor/proof.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index c4d51f6..231dd7f 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -736,11 +736,7 @@ pub fn finalize_verification_transfer_lamports<'a>(
 
             if public_inputs.solana_pay_transfer {
                 // `pool` transfers `amount` to `original_fee_payer` (lamports)
-                transfer_lamports_from_pda_checked(
-                    pool,
-                    original_fee_payer,
-                    public_inputs.join_split.amount,
-                )?;
+                transfer_lamports_from_pda_checked(pool, original_fee_payer, amount)?;
 
                 // Last instruction: `original_fee_payer` transfers `amount` to `recipient`
                 let instructions_sysvar = DefaultInstructionsSysvar(instructions_account);
-- 
2.43.0


From 6a4111f88e8cf1061b1620bb231469abec308cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:54 +0000
Subject: [PATCH 05/25] fix: close the old vkey data account on a vkey version
 update

---
 elusiv/src/processor/vkey.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/elusiv/src/processor/vkey.rs b/elusiv/src/processor/vkey.rs
index f73c754..33cd024 100644
--- a/elusiv/src/processor/vkey.rs
+++ b/elusiv/src/processor/vkey.rs
@@ -4,9 +4,7 @@ use crate::{
 };
 use borsh::{BorshDeserialize, BorshSerialize};
 use elusiv_types::{BorshSerDeSized, ChildAccountConfig, ElusivOption, ParentAccount};
-use elusiv_utils::{
-    guard, open_pda_account_with_offset, pda_account, transfer_with_system_program,
-};
+use elusiv_utils::{close_account, guard, open_pda_account_with_offset, pda_account};
 use solana_program::{
     account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError,
     pubkey::Pubkey,
@@ -106,7 +104,7 @@ pub fn update_vkey_version<'a>(
     signer: &AccountInfo<'a>,
     vkey_account: &mut VKeyAccount,
     old_vkey_binary_data_account: &AccountInfo<'a>,
-    system_program: &AccountInfo<'a>,
+    _system_program: &AccountInfo<'a>,
 
     _vkey_id: u32,
 ) -> ProgramResult {
@@ -124,12 +122,8 @@ pub fn update_vkey_version<'a>(
             ElusivError::InvalidAccount
         );
 
-        transfer_with_system_program(
-            old_vkey_binary_data_account,
-            signer,
-            system_program,
-            old_vkey_binary_data_account.lamports(),
-        )?;
+        // The account is owned by this program (so the system program cannot transfer its Lamports)
+        close_account(signer, old_vkey_binary_data_account)?;
     }
 
     // Swap child accounts
-- 
2.43.0


From 0ea724912344a596abea216b4ba04c03a2af2299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:20 +0000
Subject: [PATCH 06/25] fix: check everything before mutating the queues when
 initializing a commitment hash

---
 elusiv/src/processor/commitment.rs | 22 ++++++++++++++--------
 elusiv/src/state/metadata.rs       | 11 +++++++++++
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/elusiv/src/processor/commitment.rs b/elusiv/src/processor/commitment.rs
index c1ab6c5..468d4a2 100644
--- a/elusiv/src/processor/commitment.rs
+++ b/elusiv/src/processor/commitment.rs
@@ -410,9 +410,21 @@ fn init_commitment_hash_inner(
 
     let mut commitment_queue = CommitmentQueue::new(commitment_queue);
     let (batch, batching_rate) = commitment_queue.next_batch()?;
-    commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
-
     let mut metadata_queue = MetadataQueue::new(metadata_queue);
+
+    // Check for room for the commitment batch and its metadata
+    // - a failure can be ignored (`insertion_can_fail`), so no state is allowed to be mutated before all checks have passed
+    guard!(
+        hashing_account.get_ordering() as usize + batch.len() <= MT_COMMITMENT_COUNT,
+        ElusivError::NoRoomForCommitment
+    );
+    guard!(
+        metadata_queue.len() as usize >= batch.len(),
+        ElusivError::QueueIsEmpty
+    );
+    metadata_account.verify_metadata_child_accounts(batch.len())?;
+
+    commitment_queue.remove(usize_as_u32_safe(batch.len()))?;
     for _ in 0..batch.len() {
         let metadata = metadata_queue.dequeue_first()?;
         metadata_account.add_commitment_metadata(&metadata)?;
@@ -421,12 +433,6 @@ fn init_commitment_hash_inner(
     // The fee/batch-upgrader logic has to guarantee that there are no lower fees in a batch
     let fee_version = batch.first().unwrap().fee_version;
 
-    // Check for room for the commitment batch
-    guard!(
-        hashing_account.get_ordering() as usize + batch.len() <= MT_COMMITMENT_COUNT,
-        ElusivError::NoRoomForCommitment
-    );
-
     let mut commitments = [[0; 32]; MAX_HT_COMMITMENTS];
     for i in 0..batch.len() {
         commitments[i] = batch[i].commitment;
diff --git a/elusiv/src/state/metadata.rs b/elusiv/src/state/metadata.rs
index fdd1d86..7514061 100644
--- a/elusiv/src/state/metadata.rs
+++ b/elusiv/src/state/metadata.rs
@@ -54,6 +54,17 @@ impl<'a, 'b, 't> MetadataAccount<'a, 'b, 't> {
         Ok(())
     }
 
+    /// Verifies that the child-accounts required to add `count` additional [`CommitmentMetadata`] are available
+    pub fn verify_metadata_child_accounts(&self, count: usize) -> ProgramResult {
+        let metadata_index = self.get_next_metadata_ptr() as usize;
+        for i in 0..count {
+            let (child_index, _) = Self::child_account_and_local_index(metadata_index + i);
+            self.execute_on_child_account(child_index, |_| ())?;
+        }
+
+        Ok(())
+    }
+
     #[cfg(feature = "elusiv-client")]
     pub fn get_commitment_metadata(
         &self,
-- 
2.43.0


From 15e16b9bfe8e5d443bfcb1a38a64f0a39a97cf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:38 +0000
Subject: [PATCH 07/25] fix: reject oracle prices that are not positive

---
 shared/elusiv-types/src/tokens.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shared/elusiv-types/src/tokens.rs b/shared/elusiv-types/src/tokens.rs
index fa13bce..9fb0d28 100644
--- a/shared/elusiv-types/src/tokens.rs
+++ b/shared/elusiv-types/src/tokens.rs
@@ -298,6 +298,11 @@ impl TokenPrice {
             .get_current_price()
             .ok_or(TokenError::PriceError)?;
 
+        // A price that is not positive cannot be used to convert any amount
+        if base_price.price <= 0 {
+            return Err(TokenError::PriceError);
+        }
+
         let price = base_price
             .cmul(1, -(elusiv_token(token_id)?.price_base_exp as i32))
             .ok_or(TokenError::PriceError)?;
-- 
2.43.0


From c25035e277241a43841284f85e894610b5a1ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:03 +0000
Subject: [PATCH 08/25] fix: reject roots of Merkle trees that have not been
 active yet

---
 elusiv/src/processor/proof.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 231dd7f..1e36a69 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -1177,7 +1177,11 @@ fn check_join_split_public_inputs(
                         ElusivError::InvalidMerkleRoot
                     );
                 } else {
-                    // Closed tree
+                    // Closed tree (a tree that has not been active yet has no valid root)
+                    guard!(
+                        tree_indices[index] < active_tree_index,
+                        ElusivError::InvalidMerkleRoot
+                    );
                     guard!(
                         root.reduce() == nullifier_accounts[index].get_root(),
                         ElusivError::InvalidMerkleRoot
-- 
2.43.0


From 7e90b9ee50b9782e3c812144a2062d42644c82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 09/25] fix: bind the finalization of a verification to its own
 transfer instruction

---
 elusiv/src/processor/proof.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 1e36a69..0d48b16 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -570,6 +570,10 @@ pub fn finalize_verification_send(
         public_inputs.join_split.token_id == 0,
         verification_account_index,
     )?;
+    enforce_transfer_fee_payer(
+        instructions_account,
+        &Pubkey::new_from_array(verification_account.get_other_data().fee_payer.skip_mr()),
+    )?;
 
     let (commitment_index, mt_index) = minimum_commitment_mt_index(
         storage_account.get_trees_count(),
@@ -1255,6 +1259,33 @@ fn enforce_finalize_send_instructions(
     )
 }
 
+/// Enforces that the transfer finalizes the verification of the same fee payer
+/// - this is required since every fee payer can have a verification with the same index
+fn enforce_transfer_fee_payer(
+    instructions_account: &AccountInfo,
+    original_fee_payer: &Pubkey,
+) -> ProgramResult {
+    if cfg!(test) {
+        return Ok(());
+    }
+
+    let instruction_sysvar = DefaultInstructionsSysvar(instructions_account);
+    let mut index = instruction_sysvar.current_index()? as usize + 1;
+    let mut ix = instruction_sysvar.instruction_at_index(index)?;
+    while ix.data[0] == ElusivInstruction::FINALIZE_VERIFICATION_INSERT_NULLIFIER_INDEX {
+        index += 1;
+        ix = instruction_sysvar.instruction_at_index(index)?;
+    }
+
+    // `original_fee_payer` is the first account of both transfer instructions
+    guard!(
+        ix.accounts[0].pubkey == *original_fee_payer,
+        ElusivError::InvalidOtherInstruction
+    );
+
+    Ok(())
+}
+
 fn verify_finalize_send_instruction<I: InstructionsSysvar>(
     ix_index: usize,
     instruction_sysvar: &I,
-- 
2.43.0


From 29b8fb9ae1155b5c979288d9549c6079e1d0e4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 10/25] fix: do not let several solana-pay transfers share one
 payment

---
 elusiv/src/processor/proof.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 0d48b16..5104dc2 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -750,6 +750,7 @@ pub fn finalize_verification_transfer_lamports<'a>(
                     &system_instruction::transfer(original_fee_payer.key, recipient.key, amount),
                     false,
                 )?;
+                enforce_single_transfer(&instructions_sysvar)?;
             } else {
                 // `pool` transfers `amount` to `recipient` (lamports)
                 transfer_lamports_from_pda_checked(pool, recipient, amount)?;
@@ -993,6 +994,7 @@ pub fn finalize_verification_transfer_token<'a>(
                     )?,
                     false,
                 )?;
+                enforce_single_transfer(&instructions_sysvar)?;
             } else {
                 // `pool` transfers `amount` to `recipient` (token)
                 transfer_token_from_pda::<PoolAccount>(
@@ -1356,6 +1358,30 @@ fn enforce_finalize_send_instructions_inner<I: InstructionsSysvar>(
     Ok(())
 }
 
+/// Enforces that the transaction finalizes a single transfer
+/// - otherwise multiple solana-pay transfers could be satisfied with one and the same payment instruction
+fn enforce_single_transfer<I: InstructionsSysvar>(instruction_sysvar: &I) -> ProgramResult {
+    let mut transfers_count = 0;
+    for index in 0..instruction_sysvar.find_instruction_count()? {
+        let ix = instruction_sysvar.instruction_at_index(index)?;
+        if ix.program_id == crate::id()
+            && matches!(
+                ix.data.first(),
+                Some(
+                    &ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_LAMPORTS_INDEX
+                        | &ElusivInstruction::FINALIZE_VERIFICATION_TRANSFER_TOKEN_INDEX
+                )
+            )
+        {
+            transfers_count += 1;
+        }
+    }
+
+    guard!(transfers_count == 1, ElusivError::InvalidOtherInstruction);
+
+    Ok(())
+}
+
 fn enforce_instruction<I: InstructionsSysvar>(
     instruction_sysvar: &I,
     index: usize,
-- 
2.43.0


From eb795f7434a473a603ba45ba41f74b98adc4a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:31 +0000
Subject: [PATCH 11/25] fix: keep recording commitment metadata after a Merkle
 tree switch

---
 elusiv/src/state/metadata.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/elusiv/src/state/metadata.rs b/elusiv/src/state/metadata.rs
index 7514061..f2ccca7 100644
--- a/elusiv/src/state/metadata.rs
+++ b/elusiv/src/state/metadata.rs
@@ -1,4 +1,4 @@
-use super::{commitment::COMMITMENT_QUEUE_LEN, queue::queue_account};
+use super::{commitment::COMMITMENT_QUEUE_LEN, queue::queue_account, storage::MT_COMMITMENT_COUNT};
 use crate::commitment::MT_HEIGHT;
 use elusiv_proc_macros::elusiv_account;
 use elusiv_types::{
@@ -85,7 +85,9 @@ impl<'a, 'b, 't> MetadataAccount<'a, 'b, 't> {
         })
     }
 
+    /// The metadata of a commitment is located at the position of the commitment in its MT (the pointer continues over all MTs)
     fn child_account_and_local_index(metadata_index: usize) -> (usize, usize) {
+        let metadata_index = metadata_index % MT_COMMITMENT_COUNT;
         let child_index = metadata_index / VALUES_PER_METADATA_CHILD_ACCOUNT;
         let index = metadata_index % VALUES_PER_METADATA_CHILD_ACCOUNT;
 
-- 
2.43.0


From 95e30a85324e0a9abfd40f42957df734f98d714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 12/25] fix: store the roots of batched insertions in
 consecutive history slots

---
 elusiv/src/state/commitment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv/src/state/commitment.rs b/elusiv/src/state/commitment.rs
index dac3b7c..07a4e06 100644
--- a/elusiv/src/state/commitment.rs
+++ b/elusiv/src/state/commitment.rs
@@ -260,7 +260,7 @@ impl<'a> CommitmentHashingAccount<'a> {
 
             // This inserts the new root into the `active_mt_root_history`
             storage_account.set_active_mt_root_history(
-                ordering as usize % HISTORY_ARRAY_SIZE,
+                storage_account.get_mt_roots_count() as usize % HISTORY_ARRAY_SIZE,
                 &storage_account.get_root().unwrap(),
             );
             storage_account.set_mt_roots_count(&(storage_account.get_mt_roots_count() + 1));
-- 
2.43.0


From ee77f3604201199fe471dfb87e84d37b99c79ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:32 +0000
Subject: [PATCH 13/25] fix: keep a new maximum of a full map reachable

---
 elusiv/src/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elusiv/src/map.rs b/elusiv/src/map.rs
index 6faaa11..4a4de9b 100644
--- a/elusiv/src/map.rs
+++ b/elusiv/src/map.rs
@@ -221,6 +221,11 @@ impl<'a, K: ElusivMapKey, V: ElusivMapValue, const CAPACITY: usize> ElusivMap<'a
 
         self.set(&new_ptr, key, value);
 
+        if is_full && index + 1 == self.len.get() {
+            // The new maximum replaces the previous maximum (in place, so no pointers change)
+            return Ok(Some((max_key.unwrap(), max_value.unwrap())));
+        }
+
         if index == 0 {
             // Prepend
             let ptr = self.min_ptr.get();
-- 
2.43.0


From a6b12e648d9d870e2433055806b1de8597c65178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:51 +0000
Subject: [PATCH 14/25] fix: let a verification without its own nullifier
 duplicate account be closed without it

---
 elusiv/src/instruction.rs     |  4 ++--
 elusiv/src/processor/proof.rs | 26 ++++++++++++++++----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/elusiv/src/instruction.rs b/elusiv/src/instruction.rs
index dd83118..9c58536 100644
--- a/elusiv/src/instruction.rs
+++ b/elusiv/src/instruction.rs
@@ -172,7 +172,7 @@ pub enum ElusivInstruction {
     #[pda(commitment_hash_queue, CommitmentQueueAccount, { writable })]
     #[pda(metadata_queue, MetadataQueueAccount, { writable })]
     #[pda(verification_account, VerificationAccount, pda_pubkey = original_fee_payer.pubkey(), pda_offset = Some(verification_account_index.into()), { writable, account_info })]
-    #[acc(nullifier_duplicate_account, { writable, owned })]
+    #[acc(nullifier_duplicate_account, { writable })]
     #[sys(system_program, key = system_program::ID, { ignore })]
     #[sys(instructions_account, key = instructions::ID)]
     FinalizeVerificationTransferLamports { verification_account_index: u8 },
@@ -189,7 +189,7 @@ pub enum ElusivInstruction {
     #[pda(commitment_hash_queue, CommitmentQueueAccount, { writable })]
     #[pda(metadata_queue, MetadataQueueAccount, { writable })]
     #[pda(verification_account, VerificationAccount, pda_pubkey = original_fee_payer.pubkey(), pda_offset = Some(verification_account_index.into()), { writable, account_info })]
-    #[acc(nullifier_duplicate_account, { writable, owned })]
+    #[acc(nullifier_duplicate_account, { writable })]
     #[sys(a_token_program, key = spl_associated_token_account::ID, { ignore })]
     #[sys(token_program, key = spl_token::ID)]
     #[sys(system_program, key = system_program::ID, { ignore })]
diff --git a/elusiv/src/processor/proof.rs b/elusiv/src/processor/proof.rs
index 5104dc2..266a369 100644
--- a/elusiv/src/processor/proof.rs
+++ b/elusiv/src/processor/proof.rs
@@ -699,11 +699,14 @@ pub fn finalize_verification_transfer_lamports<'a>(
         original_fee_payer.key.to_bytes() == data.fee_payer.skip_mr(),
         ElusivError::InvalidAccount
     );
-    guard!(
-        *nullifier_duplicate_account.key
-            == join_split.create_nullifier_duplicate_pda(nullifier_duplicate_account)?,
-        ElusivError::InvalidAccount
-    );
+    // A verification that skipped the account's creation does not rely on it (it may be closed already)
+    if !data.skip_nullifier_pda {
+        guard!(
+            *nullifier_duplicate_account.key
+                == join_split.create_nullifier_duplicate_pda(nullifier_duplicate_account)?,
+            ElusivError::InvalidAccount
+        );
+    }
 
     // Invalid proof
     if let ElusivOption::Some(false) = verification_account.get_is_verified() {
@@ -853,11 +856,14 @@ pub fn finalize_verification_transfer_token<'a>(
         original_fee_payer_account.key.to_bytes() == data.fee_payer_account.skip_mr(),
         ElusivError::InvalidAccount
     );
-    guard!(
-        *nullifier_duplicate_account.key
-            == join_split.create_nullifier_duplicate_pda(nullifier_duplicate_account)?,
-        ElusivError::InvalidAccount
-    );
+    // A verification that skipped the account's creation does not rely on it (it may be closed already)
+    if !data.skip_nullifier_pda {
+        guard!(
+            *nullifier_duplicate_account.key
+                == join_split.create_nullifier_duplicate_pda(nullifier_duplicate_account)?,
+            ElusivError::InvalidAccount
+        );
+    }
 
     verify_program_token_account(pool, pool_account, token_id)?;
     verify_program_token_account(fee_collector, fee_collector_account, token_id)?;
-- 
2.43.0


From 2b11fbad8de43ecf9fc24ec9ae095b8b857fd689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 15/25] fix: open PDA accounts whose address already holds
 lamports

create_account fails for an address with a balance, so anybody could block an
account (e.g. the nullifier account of the next Merkle tree, or the nullifier
duplicate account of a transfer) by transferring lamports to its address.
---
 shared/elusiv-utils/src/lib.rs | 57 +++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/shared/elusiv-utils/src/lib.rs b/shared/elusiv-utils/src/lib.rs
index eec2fb5..ae6d3ae 100644
--- a/shared/elusiv-utils/src/lib.rs
+++ b/shared/elusiv-utils/src/lib.rs
@@ -5,8 +5,14 @@ use elusiv_types::{
     PDAOffset,
 };
 use solana_program::{
-    account_info::AccountInfo, entrypoint::ProgramResult, program::invoke_signed,
-    program_error::ProgramError, pubkey::Pubkey, rent::Rent, system_instruction, sysvar::Sysvar,
+    account_info::AccountInfo,
+    entrypoint::ProgramResult,
+    program::{invoke, invoke_signed},
+    program_error::ProgramError,
+    pubkey::Pubkey,
+    rent::Rent,
+    system_instruction,
+    sysvar::Sysvar,
 };
 
 #[cfg(feature = "sdk")]
@@ -122,22 +128,45 @@ pub fn create_pda_account<'a>(
 
     let lamports_required = Rent::get()?.minimum_balance(account_size);
     let space: u64 = account_size.try_into().unwrap();
+    let lamports_missing = lamports_required.saturating_sub(pda_account.lamports());
     guard!(
-        payer.lamports() >= lamports_required,
+        payer.lamports() >= lamports_missing,
         ProgramError::AccountNotRentExempt
     );
 
-    invoke_signed(
-        &system_instruction::create_account(
-            payer.key,
-            pda_account.key,
-            lamports_required,
-            space,
-            program_id,
-        ),
-        &[payer.clone(), pda_account.clone()],
-        &[signers_seeds],
-    )?;
+    if pda_account.lamports() == 0 {
+        invoke_signed(
+            &system_instruction::create_account(
+                payer.key,
+                pda_account.key,
+                lamports_required,
+                space,
+                program_id,
+            ),
+            &[payer.clone(), pda_account.clone()],
+            &[signers_seeds],
+        )?;
+    } else {
+        // Anyone can transfer Lamports to the address in advance, in which case `create_account` fails
+        if lamports_missing > 0 {
+            invoke(
+                &system_instruction::transfer(payer.key, pda_account.key, lamports_missing),
+                &[payer.clone(), pda_account.clone()],
+            )?;
+        }
+
+        invoke_signed(
+            &system_instruction::allocate(pda_account.key, space),
+            &[pda_account.clone()],
+            &[signers_seeds],
+        )?;
+
+        invoke_signed(
+            &system_instruction::assign(pda_account.key, program_id),
+            &[pda_account.clone()],
+            &[signers_seeds],
+        )?;
+    }
 
     // Assign default fields
     let mut data = &mut pda_account.data.borrow_mut()[..];
-- 
2.43.0


From d54048592c3e6d2ad95180050f60188625340e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 16/25] fix: count tracked warden activity, per day and by kind

---
 .../src/processor/basic_warden.rs              | 18 +++++++++++++++++-
 elusiv-warden-network/src/warden.rs            | 18 +++++++++++++-----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 442a714..3ac3ea3 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -268,9 +268,15 @@ pub fn open_basic_warden_stats_account<'b>(
 
 const ELUSIV_PROGRAM_ID: Pubkey = crate::macros::program_id!(elusiv);
 
+pub enum TrackableKind {
+    Store,
+    Send,
+}
+
 pub struct TrackableElusivInstruction {
     pub instruction_id: u8,
     pub warden_index: u8,
+    pub kind: TrackableKind,
 }
 
 pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
@@ -278,16 +284,19 @@ pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
     TrackableElusivInstruction {
         instruction_id: 2,
         warden_index: 0,
+        kind: TrackableKind::Store,
     },
     // FinalizeVerificationTransferLamports
     TrackableElusivInstruction {
         instruction_id: 13,
         warden_index: 1,
+        kind: TrackableKind::Send,
     },
     // FinalizeVerificationTransferToken
     TrackableElusivInstruction {
         instruction_id: 14,
         warden_index: 3,
+        kind: TrackableKind::Send,
     },
 ];
 
@@ -353,7 +362,14 @@ fn track_basic_warden_stats_inner(
             ProgramError::IncorrectProgramId
         );
 
-        stats_account.set_store(stats_account.get_store().inc(day)?);
+        match ix.kind {
+            TrackableKind::Store => {
+                stats_account.set_store(&stats_account.get_store().inc(day)?);
+            }
+            TrackableKind::Send => {
+                stats_account.set_send(&stats_account.get_send().inc(day)?);
+            }
+        }
     } else {
         return Err(ElusivWardenNetworkError::StatsError.into());
     }
diff --git a/elusiv-warden-network/src/warden.rs b/elusiv-warden-network/src/warden.rs
index e0ed547..6a782e2 100644
--- a/elusiv-warden-network/src/warden.rs
+++ b/elusiv-warden-network/src/warden.rs
@@ -197,18 +197,26 @@ pub struct WardenStatistics {
 }
 
 impl WardenStatistics {
-    pub fn inc(&self, day: u32) -> Result<&Self, ProgramError> {
-        guard!(day < 366, ElusivWardenNetworkError::StatsError);
+    /// Counts an activity on a day of the year (starting with 1)
+    pub fn inc(&self, day: u32) -> Result<Self, ProgramError> {
+        guard!(
+            (1..=366).contains(&day),
+            ElusivWardenNetworkError::StatsError
+        );
 
-        self.total
+        let mut stats = self.clone();
+
+        stats.total = stats
+            .total
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-        self.activity[day as usize]
+        let activity = &mut stats.activity[day as usize - 1];
+        *activity = activity
             .checked_add(1)
             .ok_or(ElusivWardenNetworkError::Overflow)?;
 
-        Ok(self)
+        Ok(stats)
     }
 }
 
-- 
2.43.0


From 4d7850b032e7e3ec71e3b84d416da743da44215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 17/25] fix: attribute tracked payouts to the warden that paid
 for the verification

---
 elusiv-warden-network/src/processor/basic_warden.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 3ac3ea3..3e9ac66 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -289,13 +289,13 @@ pub const TRACKABLE_ELUSIV_INSTRUCTIONS: [TrackableElusivInstruction; 3] = [
     // FinalizeVerificationTransferLamports
     TrackableElusivInstruction {
         instruction_id: 13,
-        warden_index: 1,
+        warden_index: 0,
         kind: TrackableKind::Send,
     },
     // FinalizeVerificationTransferToken
     TrackableElusivInstruction {
         instruction_id: 14,
-        warden_index: 3,
+        warden_index: 0,
         kind: TrackableKind::Send,
     },
 ];
-- 
2.43.0


From 5ee617d4a3688ddeb558b0450cfb44cfdec1d4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 18/25] fix: count a tracked instruction only once

---
 elusiv-warden-network/src/processor/basic_warden.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index 3e9ac66..efeffb4 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -341,6 +341,15 @@ fn track_basic_warden_stats_inner(
     );
 
     let index = instructions::load_current_index_checked(instructions_account)?;
+
+    // Called through another program, any number of times, it would be the same previous instruction
+    let current_ix =
+        instructions::load_instruction_at_checked(index as usize, instructions_account)?;
+    guard!(
+        current_ix.program_id == crate::id(),
+        ProgramError::IncorrectProgramId
+    );
+
     let previous_ix = instructions::load_instruction_at_checked(
         index
             .checked_sub(1)
-- 
2.43.0


From e2c08b493c120dd9e19c52e7f4af0cc633007c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 19/25] fix: store the second half of a quote at its member's
 position

---
 elusiv-warden-network/src/network.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index c95075c..e867ebb 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -162,10 +162,9 @@ impl<'a> ApaWardenNetworkAccount<'a> {
         );
 
         let member_index = (0..self.get_members_count() as usize)
-            .map(|i| self.get_members(i))
-            .find(|member| member == &warden_id)
+            .find(|&i| self.get_members(i) == warden_id)
             .ok_or(ElusivWardenNetworkError::WardenRegistrationError)?;
-        self.set_quote_ends(member_index as usize, &Some(quote_end).into());
+        self.set_quote_ends(member_index, &Some(quote_end).into());
 
         Ok(())
     }
-- 
2.43.0


From 3fc7140a10baa408b3e3819327338829f135f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 20/25] fix: store the key of a registered operator

---
 elusiv-warden-network/src/processor/operator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/elusiv-warden-network/src/processor/operator.rs b/elusiv-warden-network/src/processor/operator.rs
index d0e4e3e..ba07ede 100644
--- a/elusiv-warden-network/src/processor/operator.rs
+++ b/elusiv-warden-network/src/processor/operator.rs
@@ -29,6 +29,7 @@ pub fn register_warden_operator<'b>(
         WardenOperatorAccount,
         operator_account.get_safe()?
     );
+    operator_account.set_key(operator.key);
     operator_account.set_ident(&ident);
     operator_account.set_url(&url);
     operator_account.set_jurisdiction(&jurisdiction.into());
-- 
2.43.0


From f32413bb344c0e36dab774406a579a6270705de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 21/25] fix: refuse proposals of a freezing authority without a
 token

---
 elusiv-warden-network/src/processor/apa.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elusiv-warden-network/src/processor/apa.rs b/elusiv-warden-network/src/processor/apa.rs
index ebcb17b..dd2ed27 100644
--- a/elusiv-warden-network/src/processor/apa.rs
+++ b/elusiv-warden-network/src/processor/apa.rs
@@ -62,6 +62,12 @@ pub fn propose_apa_proposal<'b>(
                 }
             }
         }
+    } else {
+        // A freezing authority is the authority of a specific token
+        guard!(
+            matches!(proposal.proponent_role, ApaProponentRole::Default),
+            ElusivWardenNetworkError::ProposalError
+        );
     }
 
     open_pda_account_with_offset::<ApaProposalAccount>(
-- 
2.43.0


From 172e5fdb9786b270a6f2fe0b33edce663ca8bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 22/25] fix: store attested metadata on the attested warden

---
 elusiv-warden-network/src/processor/basic_warden.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index efeffb4..ff9be12 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -235,6 +235,8 @@ pub fn attest_basic_warden_metadata(
     warden.config.region = region;
     warden.is_metadata_valid = Some(!warden_supplied_invalid_data).into();
 
+    warden_account.set_warden(&warden);
+
     basic_network_account.update_region(warden_id, member_index as usize, &region)?;
 
     Ok(())
-- 
2.43.0


From cb0295962d41a7133188d2f5e0dbb00f745efd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 23/25] fix: refuse registrations that appoint themselves as
 attester

---
 elusiv-warden-network/src/processor/basic_warden.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elusiv-warden-network/src/processor/basic_warden.rs b/elusiv-warden-network/src/processor/basic_warden.rs
index ff9be12..75add04 100644
--- a/elusiv-warden-network/src/processor/basic_warden.rs
+++ b/elusiv-warden-network/src/processor/basic_warden.rs
@@ -31,6 +31,12 @@ pub fn register_basic_warden<'a, 'b>(
 ) -> ProgramResult {
     guard!(config.key == *warden.key, ProgramError::InvalidArgument);
 
+    // Only the authority appoints attesters
+    guard!(
+        !config.warden_features.attestation,
+        ElusivWardenNetworkError::InvalidSigner
+    );
+
     basic_network_account.try_add_member(
         warden_id,
         &config.basic_warden_features,
-- 
2.43.0


From e6a91ade6f1fb847c0d6b79bbd690fca8fcd47f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 24/25] fix: open the target map of a proposal when its address
 already holds lamports

---
 elusiv-warden-network/src/processor/apa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elusiv-warden-network/src/processor/apa.rs b/elusiv-warden-network/src/processor/apa.rs
index dd2ed27..79ab002 100644
--- a/elusiv-warden-network/src/processor/apa.rs
+++ b/elusiv-warden-network/src/processor/apa.rs
@@ -78,7 +78,7 @@ pub fn propose_apa_proposal<'b>(
         None,
     )?;
 
-    if target_map_account.lamports() == 0 {
+    if target_map_account.data_is_empty() {
         open_pda_account_with_associated_pubkey::<ApaTargetMapAccount>(
             &crate::id(),
             proponent,
-- 
2.43.0


From ceaf045126bb0ca912b630efc759c18f5741ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 25/25] fix: fit the basic warden network account into what one
 call may allocate

---
 elusiv-warden-network/src/network.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elusiv-warden-network/src/network.rs b/elusiv-warden-network/src/network.rs
index e867ebb..2096429 100644
--- a/elusiv-warden-network/src/network.rs
+++ b/elusiv-warden-network/src/network.rs
@@ -35,7 +35,8 @@ macro_rules! warden_network {
     };
 }
 
-warden_network!(ElusivBasicWardenNetwork, NetworkSize::Dynamic(0, 512));
+// An account opened by the program itself must not be larger than `MAX_PERMITTED_DATA_INCREASE` (10,240 bytes)
+warden_network!(ElusivBasicWardenNetwork, NetworkSize::Dynamic(0, 511));
 
 #[elusiv_account]
 pub struct BasicWardenNetworkAccount {
-- 
2.43.0

