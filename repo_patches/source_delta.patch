From 7284a9ec906de5fb7f3cb9759543737d29f95643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 01/20] fix: decoders return an error on truncated or empty
 input instead of panicking

---
 src/block.rs | 11 +++++++++--
 src/tools.rs | 14 ++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 2fba3f2..38a6f06 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -85,10 +85,10 @@ impl BasicInfo {
     pub fn parse(data: &[u8]) -> Result<BasicInfo, BlockError> {
         let mut index: usize = 0;
 
-        if data.len() <= 105 {
+        if data.len() <= 137 {
             return Err(
                 Report::new(BlockError::BasicInfo(BasicInfoErrorKind::Parse))
-                    .attach_printable("data <= 105"),
+                    .attach_printable("data <= 137"),
             );
         }
 
@@ -191,6 +191,13 @@ impl TransactionBlock {
     pub fn parse(data: &[u8]) -> Result<Self, BlockError> {
         let mut index: usize = 0;
 
+        if data.len() <= 32 {
+            return Err(
+                Report::new(BlockError::TransactionBlock(TxBlockErrorKind::Parse))
+                    .attach_printable("data length <= 32"),
+            );
+        }
+
         let merkle_tree_root: Hash = unsafe { data[0..32].try_into().unwrap_unchecked() };
         index += 32;
 
diff --git a/src/tools.rs b/src/tools.rs
index 773e679..afb01ae 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -56,13 +56,16 @@ pub fn dump_u256(number: &U256, buffer: &mut Vec<u8>) -> Result<(), ToolsError>
 }
 
 pub fn load_u256(data: &[u8]) -> Result<(U256, usize), ToolsError> {
-    let amount_of_bytes: usize = data[0] as usize;
+    let amount_of_bytes: usize = *data
+        .first()
+        .ok_or(ToolsError::Biguint(BiguintErrorKind::Load))
+        .attach_printable("data is empty")? as usize;
 
     if amount_of_bytes > 32 {
         return Err(Report::new(ToolsError::Biguint(BiguintErrorKind::Dump)));
     }
 
-    if data.len() < amount_of_bytes {
+    if data.len() < amount_of_bytes + 1 {
         return Err(
             Report::new(ToolsError::Biguint(BiguintErrorKind::Load)).attach_printable(format!(
                 "data = {} // bytes = {}",
@@ -109,9 +112,12 @@ pub fn dump_biguint(number: &BigUint, buffer: &mut Vec<u8>) -> Result<(), ToolsE
 }
 
 pub fn load_biguint(data: &[u8]) -> Result<(BigUint, usize), ToolsError> {
-    let amount_of_bunches: u8 = data[0];
+    let amount_of_bunches: u8 = *data
+        .first()
+        .ok_or(ToolsError::Biguint(BiguintErrorKind::Load))
+        .attach_printable("data is empty")?;
     let amount_of_bytes: usize = amount_of_bunches as usize; //*4;
-    if data.len() < amount_of_bytes {
+    if data.len() < amount_of_bytes + 1 {
         return Err(
             Report::new(ToolsError::Biguint(BiguintErrorKind::Load)).attach_printable(format!(
                 "data = {} // bytes = {}",
-- 
2.43.0


From 028ed37ff454843f582fa0fe70339d6cc50c2866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 02/20] fix: u256_size of zero is the one byte its encoding
 takes

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index afb01ae..7679942 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -84,7 +84,7 @@ pub fn load_u256(data: &[u8]) -> Result<(U256, usize), ToolsError> {
 pub fn u256_size(number: &U256) -> usize {
     let bits_size: usize = number.bits();
     if bits_size == 0 {
-        return 2;
+        return 1;
     }
     let mut amount_byte_size: usize = bits_size / 8;
     if number.bits() % 8 != 0 {
-- 
2.43.0


From b3ef8a633cf572047a6892ec29e46f4af9b15f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 03/20] fix: difficulty retargeting survives non-increasing
 timestamps and an exhausted or oversized difficulty

---
 src/tools.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index 7679942..29122b3 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -223,24 +223,28 @@ pub fn check_pow(
 }
 
 pub fn recalculate_difficulty(prev_timestamp: u64, timestamp: u64, prev_difficulty: &mut Hash) {
-    let mut non_zero_index: usize = 0;
+    // an all-zero difficulty is eased and hardened at its last byte
+    let mut non_zero_index: usize = prev_difficulty.len() - 1;
     for (index, val) in prev_difficulty.iter().enumerate() {
         if !0.eq(val) {
             non_zero_index = index;
             break;
         };
     }
-    match (timestamp - prev_timestamp).cmp(&TIME_PER_BLOCK) {
+    match timestamp
+        .saturating_sub(prev_timestamp)
+        .cmp(&TIME_PER_BLOCK)
+    {
         Ordering::Less => {
             let val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index) };
             *val >>= 1;
         }
         Ordering::Greater => {
             let mut val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index) };
-            if non_zero_index == 0 && *val == 0x7f {
+            if non_zero_index == 0 && *val >= 0x7f {
                 return;
             }
-            if *val == 0xFF {
+            if *val & 0x80 != 0 {
                 val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index - 1) };
             }
             *val <<= 1;
-- 
2.43.0


From 1e9f4b61bd16bef87997973fe791ff8388ae42e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 04/20] fix: block validation checks the nonce over the
 previous hash, as emission does

---
 src/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 38a6f06..8a2f72b 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -324,7 +324,7 @@ impl Block for DerivativeBlock {
         }
 
         if !check_pow(
-            &self.get_merkle_root(),
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
@@ -419,7 +419,7 @@ impl Block for TransactionBlock {
         }
 
         if !check_pow(
-            &self.merkle_tree_root,
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
@@ -555,7 +555,7 @@ impl Block for SummarizeBlock {
         }
 
         if !check_pow(
-            &self.merkle_tree_root,
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
-- 
2.43.0


From f72942c4e8f4e58c27e2818de28a9936a9363d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 05/20] fix: verifying an empty Merkle proof returns false
 instead of panicking

---
 src/merkletree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/merkletree.rs b/src/merkletree.rs
index 602f650..56e51e6 100644
--- a/src/merkletree.rs
+++ b/src/merkletree.rs
@@ -115,6 +115,10 @@ impl MerkleTree {
     }
 
     pub fn verify_proof(hash: &[u8; 32], root: &[u8; 32], proof: &[&[u8; 32]]) -> bool {
+        if proof.is_empty() {
+            return false;
+        }
+
         let mut hasher = Sha256::new();
         let mut calculated_root: [u8; 32] = [0; 32];
 
-- 
2.43.0


From f35f8357552e009e0953f222d8e35d6d5d6eec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 06/20] fix: equality of pool items agrees with their ordering

---
 src/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transaction.rs b/src/transaction.rs
index 683410b..15a545d 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -48,7 +48,7 @@ impl PartialOrd for TransactionableItem {
 
 impl PartialEq for TransactionableItem {
     fn eq(&self, other: &Self) -> bool {
-        self.get_timestamp() == other.get_timestamp()
+        self.cmp(other) == Ordering::Equal
     }
 }
 
-- 
2.43.0


From 4e50304f0775bc849f8edd03856faffba96b510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 07/20] fix: block lookups return only blocks of the chain

---
 src/chain.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 6469012..53299ab 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -321,7 +321,7 @@ impl MainChain {
         height: &U256,
     ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
         let chain_height = self.height.read();
-        if height > &chain_height {
+        if height >= &chain_height {
             return Ok(None);
         }
         drop(chain_height);
@@ -359,7 +359,8 @@ impl MainChain {
             .find_raw_by_height(&height)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
 
-        Ok(block)
+        // the reference may be left from a block that was lost and replaced
+        Ok(block.filter(|dump| tools::hash(dump) == *hash))
     }
 
     pub fn find_by_hash(
@@ -619,7 +620,7 @@ impl DerivativeChain {
         height: &U256,
     ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
         let chain_height = self.height.read();
-        if height > &chain_height {
+        if height >= &chain_height {
             return Ok(None);
         }
         drop(chain_height);
@@ -657,7 +658,8 @@ impl DerivativeChain {
             .find_raw_by_height(&height)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
 
-        Ok(block)
+        // the reference may be left from a block that was lost and replaced
+        Ok(block.filter(|dump| tools::hash(dump) == *hash))
     }
 
     pub fn find_by_hash(
-- 
2.43.0


From b17c939d035fac24629050fcd33e58263f00ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 08/20] fix: sending gas to oneself no longer creates gas

---
 src/blockchaintree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 7d578d8..ce7f49c 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -290,6 +290,9 @@ impl BlockChainTree {
         to: &[u8],
         amount: U256,
     ) -> Result<(), Report<BlockChainTreeError>> {
+        if from == to {
+            return Ok(());
+        }
         self.gas_db
             .transaction(
                 |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
-- 
2.43.0


From 7032319a337c9814dce0ddbb8d865485f5bae792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 09/20] fix: refused or overflowing balance changes return an
 error instead of panicking

---
 src/blockchaintree.rs | 64 ++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index ce7f49c..765c7ff 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -116,16 +116,20 @@ impl BlockChainTree {
                         Some(v) => tools::load_u256(&v).unwrap().0,
                         None => U256::zero(),
                     };
-                    let new_amount = prev_amount + amount;
+                    let new_amount = prev_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&new_amount));
                     tools::dump_u256(&new_amount, &mut buf).unwrap();
                     db.insert(owner, buf)?;
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::AddFunds,
+                ))
+            })
     }
 
     pub fn set_amount(
@@ -169,9 +173,11 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::DecreaseFunds,
+                ))
+            })
     }
     pub fn get_amount(&self, owner: &[u8; 33]) -> Result<U256, Report<BlockChainTreeError>> {
         match self
@@ -212,7 +218,9 @@ impl BlockChainTree {
                     }
 
                     from_amount -= amount;
-                    to_amount += amount;
+                    to_amount = to_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
 
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&from_amount));
                     tools::dump_u256(&from_amount, &mut buf).unwrap();
@@ -224,9 +232,11 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::DecreaseFunds,
+                ))
+            })
     }
 
     pub fn add_gas(&self, owner: &[u8], amount: U256) -> Result<(), Report<BlockChainTreeError>> {
@@ -237,16 +247,20 @@ impl BlockChainTree {
                         Some(v) => tools::load_u256(&v).unwrap().0,
                         None => U256::zero(),
                     };
-                    let new_amount = prev_amount + amount;
+                    let new_amount = prev_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&new_amount));
                     tools::dump_u256(&new_amount, &mut buf).unwrap();
                     db.insert(owner, buf)?;
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::AddFunds,
+                ))
+            })
     }
     pub fn sub_gas(&self, owner: &[u8], amount: U256) -> Result<(), Report<BlockChainTreeError>> {
         self.gas_db
@@ -266,9 +280,11 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::DecreaseFunds,
+                ))
+            })
     }
     pub fn get_gas(&self, owner: &[u8; 33]) -> Result<U256, Report<BlockChainTreeError>> {
         match self
@@ -309,7 +325,9 @@ impl BlockChainTree {
                     }
 
                     from_amount -= amount;
-                    to_amount += amount;
+                    to_amount = to_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
 
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&from_amount));
                     tools::dump_u256(&from_amount, &mut buf).unwrap();
@@ -321,9 +339,11 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::DecreaseFunds,
+                ))
+            })
     }
 
     pub fn add_new_block(
-- 
2.43.0


From 981a285370468c0f7793bc068d801351df41cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 10/20] fix: reopening a tree at height one keeps the balance
 of the root account

---
 src/blockchaintree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 765c7ff..cb328e2 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -65,7 +65,10 @@ impl BlockChainTree {
                         let mut buf: Vec<u8> =
                             Vec::with_capacity(tools::u256_size(&COINS_PER_CYCLE));
                         tools::dump_u256(&COINS_PER_CYCLE, &mut buf).unwrap();
-                        db.insert(&(ROOT_PUBLIC_ADDRESS) as &[u8], buf)?;
+                        // the chain keeps its height of one until the first block is emitted
+                        if db.get(&(ROOT_PUBLIC_ADDRESS) as &[u8])?.is_none() {
+                            db.insert(&(ROOT_PUBLIC_ADDRESS) as &[u8], buf)?;
+                        }
                         Ok(())
                     },
                 )
-- 
2.43.0


From e2e56b212e68aedfcc0b72fb86194d7c0945ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 11/20] fix: submitted transactions must carry a valid
 signature

---
 src/blockchaintree.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index cb328e2..37e2d81 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -511,6 +511,17 @@ impl BlockChainTree {
         &self,
         transaction: &dyn Transactionable,
     ) -> Result<(), Report<BlockChainTreeError>> {
+        let verified = transaction
+            .verify()
+            .change_context(BlockChainTreeError::BlockChainTree(
+                BCTreeErrorKind::NewTransaction,
+            ))?;
+        if !verified {
+            return Err(BlockChainTreeError::BlockChainTree(
+                BCTreeErrorKind::NewTransaction,
+            ))
+            .attach_printable("wrong signature of the transaction");
+        }
         let sender_gas_amount = self.get_gas(transaction.get_sender())?;
         let sender_amount = self.get_amount(transaction.get_sender())?;
         let amount_of_bytes = transaction.get_dump_size();
-- 
2.43.0


From 2de6d23329e0102d5faab62dac44d9d3ae91eae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:09 +0000
Subject: [PATCH 12/20] fix: a submitted amount that overflows is refused
 without storing the transaction

---
 src/blockchaintree.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 37e2d81..94ff5b1 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -534,12 +534,28 @@ impl BlockChainTree {
         }
         let last_block = self.main_chain.get_last_block()?.unwrap(); // practically cannot fail
         let fee = tools::recalculate_fee(&last_block.get_info().difficulty);
-        if sender_amount < fee + transaction.get_amount().unwrap_or(U256::zero()) {
+        let amount = transaction.get_amount().unwrap_or(U256::zero());
+        if fee
+            .checked_add(amount)
+            .map_or(true, |required| sender_amount < required)
+        {
             return Err(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::NewTransaction,
             ))
             .attach_printable("not enough coins to pay the fee");
         }
+        // nothing may be stored for a transfer the receiver cannot take
+        if transaction.get_sender() != transaction.get_receiver()
+            && self
+                .get_amount(transaction.get_receiver())?
+                .checked_add(amount)
+                .is_none()
+        {
+            return Err(BlockChainTreeError::BlockChainTree(
+                BCTreeErrorKind::NewTransaction,
+            ))
+            .attach_printable("the amount overflows the balance of the receiver");
+        }
         self.main_chain.add_transaction(transaction)?;
         if let Some(amount) = transaction.get_amount() {
             // TODO: make into sled transaction
-- 
2.43.0


From 6e867e90cd828032b097404dcc9035e2afa2f7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 13/20] fix: a crash during a flush leaves a complete config
 that covers only flushed blocks

---
 src/chain.rs | 60 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 53299ab..6d34773 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -5,7 +5,7 @@ use error_stack::{Report, ResultExt};
 use parking_lot::RwLock;
 use primitive_types::U256;
 use sled::Db;
-use tokio::{fs::OpenOptions, io::AsyncWriteExt};
+use tokio::{fs::OpenOptions, io::AsyncWriteExt, sync::Mutex};
 
 use crate::block::{BlockArc, DerivativeBlock};
 use crate::dump_headers::Headers;
@@ -55,6 +55,7 @@ pub struct MainChain {
     transactions: Db,
     height: Arc<RwLock<U256>>,
     difficulty: Arc<RwLock<[u8; 32]>>,
+    flush_lock: Arc<Mutex<()>>,
     root: String,
 }
 
@@ -112,6 +113,7 @@ impl MainChain {
             transactions,
             height: Arc::new(RwLock::new(height)),
             difficulty: Arc::new(RwLock::new(difficulty)),
+            flush_lock: Arc::new(Mutex::new(())),
             root: root.to_str().unwrap().to_string(),
         };
         if height.is_zero() {
@@ -144,19 +146,22 @@ impl MainChain {
     }
     /// Dump config
     ///
-    /// Dumps chain's config
-    async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+    /// Dumps chain's config with the provided height
+    ///
+    /// The config is replaced as a whole, so that a crash leaves either the previous or the new one
+    async fn dump_config(&self, height: &U256) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
+        let path_new_config = path_config.with_extension("new");
 
         let mut file = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path_config)
+            .open(&path_new_config)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
-        self.height.read().to_big_endian(&mut buffer_32_bytes);
+        height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -168,6 +173,16 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write difficulty")?;
 
+        file.sync_all()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to sync config")?;
+
+        tokio::fs::rename(path_new_config, path_config)
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to replace config")?;
+
         Ok(())
     }
 
@@ -177,7 +192,9 @@ impl MainChain {
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-        self.dump_config().await?;
+        let _lock = self.flush_lock.lock().await;
+        // the config must not cover blocks added during the flush
+        let height = self.get_height();
 
         self.blocks
             .flush_async()
@@ -197,7 +214,7 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush transactions")?;
 
-        Ok(())
+        self.dump_config(&height).await
     }
 
     pub fn add_transactions(
@@ -444,6 +461,7 @@ pub struct DerivativeChain {
     height: Arc<RwLock<U256>>,
     pub genesis_hash: Arc<[u8; 32]>,
     difficulty: Arc<RwLock<[u8; 32]>>,
+    flush_lock: Arc<Mutex<()>>,
     chain_owner: String,
     root: String,
 }
@@ -511,6 +529,7 @@ impl DerivativeChain {
             height: Arc::new(RwLock::new(height)),
             difficulty: Arc::new(RwLock::new(difficulty)),
             genesis_hash: Arc::new(genesis_hash),
+            flush_lock: Arc::new(Mutex::new(())),
             chain_owner: chain_owner.to_string(),
             root: root.to_str().unwrap().to_string(),
         };
@@ -524,19 +543,22 @@ impl DerivativeChain {
 
     /// Dump config
     ///
-    /// Dumps chain's config
-    async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+    /// Dumps chain's config with the provided height
+    ///
+    /// The config is replaced as a whole, so that a crash leaves either the previous or the new one
+    async fn dump_config(&self, height: &U256) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
+        let path_new_config = path_config.with_extension("new");
 
         let mut file = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path_config)
+            .open(&path_new_config)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
-        self.height.read().to_big_endian(&mut buffer_32_bytes);
+        height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -553,12 +575,24 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write genesis hash")?;
 
+        file.sync_all()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to sync config")?;
+
+        tokio::fs::rename(path_new_config, path_config)
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to replace config")?;
+
         Ok(())
     }
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-        self.dump_config().await?;
+        let _lock = self.flush_lock.lock().await;
+        // the config must not cover blocks added during the flush
+        let height = self.get_height();
 
         self.blocks
             .flush_async()
@@ -572,7 +606,7 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush height references")?;
 
-        Ok(())
+        self.dump_config(&height).await
     }
 
     /// Adds new block to the chain db
-- 
2.43.0


From b95ae615765d8e72092ba2bdd90e6dd3f401d213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:26 +0000
Subject: [PATCH 14/20] fix: a crash during the epoch change leaves the
 previous epoch's databases complete

---
 src/blockchaintree.rs | 45 ++++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 94ff5b1..ac84b67 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -29,6 +29,23 @@ pub struct BlockChainTree {
     root_folder: String,
 }
 
+/// Replaces `dst` with a copy of `src`
+///
+/// The copy is completed before it takes the place of `dst`, so that a crash never leaves half of it there
+fn replace_dir(src: &Path, dst: &Path) -> std::io::Result<()> {
+    let new = dst.with_extension("new");
+    let replaced = dst.with_extension("replaced");
+    for leftover in [&new, &replaced] {
+        if leftover.exists() {
+            fs::remove_dir_all(leftover)?;
+        }
+    }
+    tools::copy_dir_all(src, &new)?;
+    fs::rename(dst, &replaced)?;
+    fs::rename(&new, dst)?;
+    fs::remove_dir_all(&replaced)
+}
+
 impl BlockChainTree {
     pub fn new(root_folder: &str) -> Result<Self, Report<BlockChainTreeError>> {
         let root = Path::new(root_folder);
@@ -605,37 +622,13 @@ impl BlockChainTree {
         let path_gas = root.join(GAS_SUMMARY);
         let path_gas_old = root.join(OLD_GAS_SUMMARY);
 
-        fs::remove_dir_all(&path_summary_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to remove previous summary database")?;
-
-        fs::create_dir(&path_summary_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to create previous summary database folder")?;
-
-        fs::remove_dir_all(&path_gas_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to remove previous gas database")?;
-
-        fs::create_dir(&path_gas_old)
-            .change_context(BlockChainTreeError::BlockChainTree(
-                BCTreeErrorKind::MoveSummaryDB,
-            ))
-            .attach_printable("failed to remove previous gas database folder")?;
-
-        tools::copy_dir_all(path_summary, &path_summary_old)
+        replace_dir(&path_summary, &path_summary_old)
             .change_context(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::MoveSummaryDB,
             ))
             .attach_printable("failed to copy summary database")?;
 
-        tools::copy_dir_all(path_gas, &path_gas_old)
+        replace_dir(&path_gas, &path_gas_old)
             .change_context(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::MoveSummaryDB,
             ))
-- 
2.43.0


From d54deb755c9135de7257d4893d101beb5cad4ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:00 +0000
Subject: [PATCH 15/20] fix: the funds store accepts any address and refuses
 overflowing additions

---
 src/summary_db.rs | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/src/summary_db.rs b/src/summary_db.rs
index 2c3c09e..a2226cb 100644
--- a/src/summary_db.rs
+++ b/src/summary_db.rs
@@ -35,8 +35,7 @@ impl SummaryDB {
                 BCTreeErrorKind::GetDerivChain,
             ))
             .attach_printable(format!(
-                "failed to get data from summary db at address: {}",
-                std::str::from_utf8(addr).unwrap()
+                "failed to get data from summary db at address: {addr:X?}"
             ))),
         }
     }
@@ -64,10 +63,7 @@ impl SummaryDB {
             Ok(None) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::DecreaseFunds,
             ))
-            .attach_printable(format!(
-                "address: {} doesn't have any coins",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("address: {addr:X?} doesn't have any coins"))),
             Ok(Some(prev)) => {
                 let res = tools::load_u256(&prev).change_context(
                     BlockChainTreeError::BlockChainTree(BCTreeErrorKind::DecreaseFunds),
@@ -109,10 +105,7 @@ impl SummaryDB {
             Err(_) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::DecreaseFunds,
             ))
-            .attach_printable(format!(
-                "failed to get data from address: {}",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("failed to get data from address: {addr:X?}"))),
         }
     }
 
@@ -141,8 +134,7 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {addr:X?}"
                     ))?;
 
                 self.db
@@ -152,8 +144,7 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {addr:X?}"
                     ))?;
 
                 Ok(())
@@ -163,8 +154,13 @@ impl SummaryDB {
                     BlockChainTreeError::BlockChainTree(BCTreeErrorKind::AddFunds),
                 )?;
 
-                let mut previous = res.0;
-                previous += *funds;
+                let previous = res
+                    .0
+                    .checked_add(*funds)
+                    .ok_or(BlockChainTreeError::BlockChainTree(
+                        BCTreeErrorKind::AddFunds,
+                    ))
+                    .attach_printable("balance overflow")?;
 
                 let mut dump: Vec<u8> = Vec::with_capacity(tools::u256_size(&previous));
                 tools::dump_u256(&previous, &mut dump).change_context(
@@ -176,10 +172,7 @@ impl SummaryDB {
                     .change_context(BlockChainTreeError::BlockChainTree(
                         BCTreeErrorKind::AddFunds,
                     ))
-                    .attach_printable(format!(
-                        "failed to put funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
-                    ))?;
+                    .attach_printable(format!("failed to put funds at address: {addr:X?}"))?;
 
                 self.db
                     .flush_async()
@@ -188,8 +181,7 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {addr:X?}"
                     ))?;
 
                 Ok(())
@@ -197,10 +189,7 @@ impl SummaryDB {
             Err(_) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::AddFunds,
             ))
-            .attach_printable(format!(
-                "failed to get data from address: {}",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("failed to get data from address: {addr:X?}"))),
         }
     }
 }
-- 
2.43.0


From aa4ee267dec99d98dc79b57ff9c0d76bcd6ac93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 16/20] fix: concurrent changes of the funds store are not lost

---
 src/summary_db.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/summary_db.rs b/src/summary_db.rs
index a2226cb..e4dafa8 100644
--- a/src/summary_db.rs
+++ b/src/summary_db.rs
@@ -3,6 +3,7 @@ use num_bigint::BigUint;
 use num_traits::Zero;
 use primitive_types::U256;
 use sled::Db;
+use tokio::sync::Mutex;
 
 use crate::{
     errors::{BCTreeErrorKind, BlockChainTreeError, ChainErrorKind},
@@ -11,11 +12,15 @@ use crate::{
 
 pub struct SummaryDB {
     db: Db,
+    change_lock: Mutex<()>,
 }
 
 impl SummaryDB {
     pub fn new(db: Db) -> Self {
-        SummaryDB { db }
+        SummaryDB {
+            db,
+            change_lock: Mutex::new(()),
+        }
     }
     /// Get funds
     ///
@@ -58,6 +63,7 @@ impl SummaryDB {
         addr: &[u8; 33],
         funds: &U256,
     ) -> Result<(), BlockChainTreeError> {
+        let _lock = self.change_lock.lock().await;
         let result = self.db.get(addr);
         match result {
             Ok(None) => Err(Report::new(BlockChainTreeError::BlockChainTree(
@@ -120,6 +126,7 @@ impl SummaryDB {
         if funds.is_zero() {
             return Ok(());
         }
+        let _lock = self.change_lock.lock().await;
         let result = self.db.get(addr);
         match result {
             Ok(None) => {
-- 
2.43.0


From b3fc9821aaeb84be6074c80097f9853dcfba02f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 17/20] fix: concurrent submissions take effect one after
 another

---
 src/blockchaintree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index ac84b67..ac416e1 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -15,6 +15,7 @@ use crate::{
     types::Hash,
 };
 use error_stack::{Report, ResultExt};
+use parking_lot::Mutex;
 use primitive_types::U256;
 use sled::Db;
 use std::fs;
@@ -27,6 +28,7 @@ pub struct BlockChainTree {
     gas_db: Db,
     old_gas_db: Db,
     root_folder: String,
+    submission_lock: Mutex<()>,
 }
 
 /// Replaces `dst` with a copy of `src`
@@ -99,6 +101,7 @@ impl BlockChainTree {
             gas_db,
             old_gas_db,
             root_folder: root_folder.into(),
+            submission_lock: Mutex::new(()),
         })
     }
 
@@ -539,6 +542,8 @@ impl BlockChainTree {
             ))
             .attach_printable("wrong signature of the transaction");
         }
+        // another submission must not spend what is checked here
+        let _lock = self.submission_lock.lock();
         let sender_gas_amount = self.get_gas(transaction.get_sender())?;
         let sender_amount = self.get_amount(transaction.get_sender())?;
         let amount_of_bytes = transaction.get_dump_size();
-- 
2.43.0


From 58f2d15b1c0b070f5d21f5611ea954f14c93b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 18/20] fix: a failed write of a chain's config is reported
 instead of installing the incomplete config

---
 src/chain.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/chain.rs b/src/chain.rs
index 6d34773..556dcf4 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -173,6 +173,12 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write difficulty")?;
 
+        // a failed write is reported by flush only, not by sync_all
+        file.flush()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to write config")?;
+
         file.sync_all()
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -575,6 +581,12 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write genesis hash")?;
 
+        // a failed write is reported by flush only, not by sync_all
+        file.flush()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to write config")?;
+
         file.sync_all()
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
-- 
2.43.0


From 9c38b2d947f7d11b75dfcf52a8a5947dfb990a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:36 +0000
Subject: [PATCH 19/20] fix: storage errors of set_amount and of an opening are
 returned instead of panicking

---
 src/blockchaintree.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index ac416e1..ceab0f0 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -91,7 +91,10 @@ impl BlockChainTree {
                         Ok(())
                     },
                 )
-                .unwrap();
+                .map_err(|_| {
+                    Report::new(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
+                })
+                .attach_printable("failed to store the initial amount")?;
         }
         Ok(Self {
             main_chain,
@@ -169,9 +172,11 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
-
-        Ok(())
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::AddFunds,
+                ))
+            })
     }
 
     pub fn sub_amount(
-- 
2.43.0


From 369cb1402b3685ae5e0c165740b0166f1eb17d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 20/20] fix: a submission is refused as a whole when its funds
 are taken while it is executed

---
 src/blockchaintree.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index ceab0f0..5dbf831 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -583,14 +583,19 @@ impl BlockChainTree {
             ))
             .attach_printable("the amount overflows the balance of the receiver");
         }
-        self.main_chain.add_transaction(transaction)?;
         if let Some(amount) = transaction.get_amount() {
             // TODO: make into sled transaction
-            self.send_amount(transaction.get_sender(), transaction.get_receiver(), amount)?;
-            //self.sub_amount(transaction.get_sender(), fee)?;
             self.sub_gas(transaction.get_sender(), gas_required)?;
+            // the coins may have been taken since they were checked
+            if let Err(e) =
+                self.send_amount(transaction.get_sender(), transaction.get_receiver(), amount)
+            {
+                self.add_gas(transaction.get_sender(), gas_required)?;
+                return Err(e);
+            }
+            //self.sub_amount(transaction.get_sender(), fee)?;
         }
-        Ok(())
+        self.main_chain.add_transaction(transaction)
     }
 
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-- 
2.43.0

