From 9cc26d790693e8bcb414397d0f755f73a40d448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 01/28] fix: u256_size of zero is the one byte dump_u256 writes

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 773e679..a0cbb9f 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -81,7 +81,7 @@ pub fn load_u256(data: &[u8]) -> Result<(U256, usize), ToolsError> {
 pub fn u256_size(number: &U256) -> usize {
     let bits_size: usize = number.bits();
     if bits_size == 0 {
-        return 2;
+        return 1;
     }
     let mut amount_byte_size: usize = bits_size / 8;
     if number.bits() % 8 != 0 {
-- 
2.43.0


From aed2216f4c8e47409c628a2f515e43e1313cc18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 02/28] fix: load_u256 and load_biguint report empty or
 truncated data instead of panicking

---
 src/tools.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index a0cbb9f..4babe10 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -56,13 +56,16 @@ pub fn dump_u256(number: &U256, buffer: &mut Vec<u8>) -> Result<(), ToolsError>
 }
 
 pub fn load_u256(data: &[u8]) -> Result<(U256, usize), ToolsError> {
-    let amount_of_bytes: usize = data[0] as usize;
+    let amount_of_bytes: usize = match data.first() {
+        Some(amount_of_bytes) => *amount_of_bytes as usize,
+        None => return Err(Report::new(ToolsError::Biguint(BiguintErrorKind::Load))),
+    };
 
     if amount_of_bytes > 32 {
         return Err(Report::new(ToolsError::Biguint(BiguintErrorKind::Dump)));
     }
 
-    if data.len() < amount_of_bytes {
+    if data.len() < amount_of_bytes + 1 {
         return Err(
             Report::new(ToolsError::Biguint(BiguintErrorKind::Load)).attach_printable(format!(
                 "data = {} // bytes = {}",
@@ -109,9 +112,12 @@ pub fn dump_biguint(number: &BigUint, buffer: &mut Vec<u8>) -> Result<(), ToolsE
 }
 
 pub fn load_biguint(data: &[u8]) -> Result<(BigUint, usize), ToolsError> {
-    let amount_of_bunches: u8 = data[0];
+    let amount_of_bunches: u8 = match data.first() {
+        Some(amount_of_bunches) => *amount_of_bunches,
+        None => return Err(Report::new(ToolsError::Biguint(BiguintErrorKind::Load))),
+    };
     let amount_of_bytes: usize = amount_of_bunches as usize; //*4;
-    if data.len() < amount_of_bytes {
+    if data.len() < amount_of_bytes + 1 {
         return Err(
             Report::new(ToolsError::Biguint(BiguintErrorKind::Load)).attach_printable(format!(
                 "data = {} // bytes = {}",
-- 
2.43.0


From f7ccccdb76492255f565b5fdc7e3b4f60b8464a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 03/28] fix: BasicInfo::parse rejects every too short input
 instead of panicking

---
 src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 2fba3f2..3819a94 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -85,10 +85,10 @@ impl BasicInfo {
     pub fn parse(data: &[u8]) -> Result<BasicInfo, BlockError> {
         let mut index: usize = 0;
 
-        if data.len() <= 105 {
+        if data.len() < 138 {
             return Err(
                 Report::new(BlockError::BasicInfo(BasicInfoErrorKind::Parse))
-                    .attach_printable("data <= 105"),
+                    .attach_printable("data < 138"),
             );
         }
 
-- 
2.43.0


From a8b1a0d865a28e46ee72ba22730eaeca4bf421b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 04/28] fix: TransactionBlock::parse rejects truncated data
 instead of panicking

---
 src/block.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index 3819a94..75d60e3 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -191,6 +191,13 @@ impl TransactionBlock {
     pub fn parse(data: &[u8]) -> Result<Self, BlockError> {
         let mut index: usize = 0;
 
+        if data.len() <= 32 {
+            return Err(
+                Report::new(BlockError::TransactionBlock(TxBlockErrorKind::Parse))
+                    .attach_printable("data length <= 32"),
+            );
+        }
+
         let merkle_tree_root: Hash = unsafe { data[0..32].try_into().unwrap_unchecked() };
         index += 32;
 
@@ -199,6 +206,13 @@ impl TransactionBlock {
             .attach_printable("Error parsing default data")?;
         index += default_info.get_dump_size();
 
+        if data.len() <= index {
+            return Err(
+                Report::new(BlockError::TransactionBlock(TxBlockErrorKind::Parse))
+                    .attach_printable("data ends before the fee"),
+            );
+        }
+
         let (fee, fee_size) = tools::load_u256(&data[index..])
             .change_context(BlockError::TransactionBlock(TxBlockErrorKind::Parse))
             .attach_printable("Error parsing fee")?;
-- 
2.43.0


From 9d79711d24bb080c3b5239c47a9dc66b95456925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 05/28] fix: validate checks the proof of work against the
 previous hash, as block production does

---
 src/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 75d60e3..02e559b 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -331,7 +331,7 @@ impl Block for DerivativeBlock {
         }
 
         if !check_pow(
-            &self.get_merkle_root(),
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
@@ -426,7 +426,7 @@ impl Block for TransactionBlock {
         }
 
         if !check_pow(
-            &self.merkle_tree_root,
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
@@ -562,7 +562,7 @@ impl Block for SummarizeBlock {
         }
 
         if !check_pow(
-            &self.merkle_tree_root,
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
-- 
2.43.0


From eb0442404b744ac1d0641a50026ca8ba6a487b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 06/28] fix: recalculate_difficulty treats a decreasing
 timestamp as a fast block instead of wrapping

---
 src/tools.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 4babe10..2eeedcb 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -230,7 +230,10 @@ pub fn recalculate_difficulty(prev_timestamp: u64, timestamp: u64, prev_difficul
             break;
         };
     }
-    match (timestamp - prev_timestamp).cmp(&TIME_PER_BLOCK) {
+    match timestamp
+        .saturating_sub(prev_timestamp)
+        .cmp(&TIME_PER_BLOCK)
+    {
         Ordering::Less => {
             let val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index) };
             *val >>= 1;
-- 
2.43.0


From e22a5f5039cc8d269ccbff585dde0cf9e00415c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 07/28] fix: recalculate_difficulty stays inside the difficulty
 and never raises it for slow blocks

---
 src/tools.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index 2eeedcb..73c3cc2 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -240,10 +240,10 @@ pub fn recalculate_difficulty(prev_timestamp: u64, timestamp: u64, prev_difficul
         }
         Ordering::Greater => {
             let mut val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index) };
-            if non_zero_index == 0 && *val == 0x7f {
+            if non_zero_index == 0 && *val >= 0x7f {
                 return;
             }
-            if *val == 0xFF {
+            if *val >= 0x80 {
                 val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index - 1) };
             }
             *val <<= 1;
-- 
2.43.0


From de5eb7df92d6189ad17d974dc9eb15100b338fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 08/28] fix: send_gas to oneself no longer creates gas

---
 src/blockchaintree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 7d578d8..ce7f49c 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -290,6 +290,9 @@ impl BlockChainTree {
         to: &[u8],
         amount: U256,
     ) -> Result<(), Report<BlockChainTreeError>> {
+        if from == to {
+            return Ok(());
+        }
         self.gas_db
             .transaction(
                 |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
-- 
2.43.0


From d73e45801ea8b49ecc754d7f5b9ad211824275d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 09/28] fix: ledger operations return an error instead of
 panicking when refused or when storage fails

---
 src/blockchaintree.rs | 54 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index ce7f49c..b53915c 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -69,7 +69,10 @@ impl BlockChainTree {
                         Ok(())
                     },
                 )
-                .unwrap();
+                .map_err(|_| {
+                    Report::new(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
+                        .attach_printable("failed to set the initial amount of coins")
+                })?;
         }
         Ok(Self {
             main_chain,
@@ -123,7 +126,12 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::AddFunds,
+                ))
+                .attach_printable("failed to add coins")
+            })?;
 
         Ok(())
     }
@@ -142,7 +150,12 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::AddFunds,
+                ))
+                .attach_printable("failed to set the amount of coins")
+            })?;
 
         Ok(())
     }
@@ -169,7 +182,12 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::DecreaseFunds,
+                ))
+                .attach_printable("failed to subtract coins")
+            })?;
 
         Ok(())
     }
@@ -224,7 +242,12 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::DecreaseFunds,
+                ))
+                .attach_printable("failed to send coins")
+            })?;
 
         Ok(())
     }
@@ -244,7 +267,12 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::AddFunds,
+                ))
+                .attach_printable("failed to add gas")
+            })?;
 
         Ok(())
     }
@@ -266,7 +294,12 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::DecreaseFunds,
+                ))
+                .attach_printable("failed to subtract gas")
+            })?;
 
         Ok(())
     }
@@ -321,7 +354,12 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|_| {
+                Report::new(BlockChainTreeError::BlockChainTree(
+                    BCTreeErrorKind::DecreaseFunds,
+                ))
+                .attach_printable("failed to send gas")
+            })?;
 
         Ok(())
     }
-- 
2.43.0


From fde9acadb6b88d73a6ecf2ce83c1f30a5d6bcc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 10/28] fix: a credit that does not fit is refused with an
 error instead of panicking

---
 src/blockchaintree.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index b53915c..10c9617 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -119,7 +119,9 @@ impl BlockChainTree {
                         Some(v) => tools::load_u256(&v).unwrap().0,
                         None => U256::zero(),
                     };
-                    let new_amount = prev_amount + amount;
+                    let new_amount = prev_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&new_amount));
                     tools::dump_u256(&new_amount, &mut buf).unwrap();
                     db.insert(owner, buf)?;
@@ -230,7 +232,9 @@ impl BlockChainTree {
                     }
 
                     from_amount -= amount;
-                    to_amount += amount;
+                    to_amount = to_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
 
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&from_amount));
                     tools::dump_u256(&from_amount, &mut buf).unwrap();
@@ -260,7 +264,9 @@ impl BlockChainTree {
                         Some(v) => tools::load_u256(&v).unwrap().0,
                         None => U256::zero(),
                     };
-                    let new_amount = prev_amount + amount;
+                    let new_amount = prev_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&new_amount));
                     tools::dump_u256(&new_amount, &mut buf).unwrap();
                     db.insert(owner, buf)?;
@@ -342,7 +348,9 @@ impl BlockChainTree {
                     }
 
                     from_amount -= amount;
-                    to_amount += amount;
+                    to_amount = to_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
 
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&from_amount));
                     tools::dump_u256(&from_amount, &mut buf).unwrap();
-- 
2.43.0


From 04328b437136f8a8fc4d95b5820b8addc4fd640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 11/28] fix: reopening a tree of height one no longer resets
 the root balance

---
 src/blockchaintree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 10c9617..0b6e5d2 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -62,6 +62,9 @@ impl BlockChainTree {
             summary_db
                 .transaction(
                     |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
+                        if db.get(&(ROOT_PUBLIC_ADDRESS) as &[u8])?.is_some() {
+                            return Ok(());
+                        }
                         let mut buf: Vec<u8> =
                             Vec::with_capacity(tools::u256_size(&COINS_PER_CYCLE));
                         tools::dump_u256(&COINS_PER_CYCLE, &mut buf).unwrap();
-- 
2.43.0


From 6c41394d707b3efadbc0b92230322f2f96a7e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 12/28] fix: send_transaction refuses transactions whose
 signature does not verify

---
 src/blockchaintree.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 0b6e5d2..76a4f78 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -537,6 +537,17 @@ impl BlockChainTree {
         &self,
         transaction: &dyn Transactionable,
     ) -> Result<(), Report<BlockChainTreeError>> {
+        if !transaction
+            .verify()
+            .change_context(BlockChainTreeError::BlockChainTree(
+                BCTreeErrorKind::NewTransaction,
+            ))?
+        {
+            return Err(BlockChainTreeError::BlockChainTree(
+                BCTreeErrorKind::NewTransaction,
+            ))
+            .attach_printable("the signature of the transaction is not valid");
+        }
         let sender_gas_amount = self.get_gas(transaction.get_sender())?;
         let sender_amount = self.get_amount(transaction.get_sender())?;
         let amount_of_bytes = transaction.get_dump_size();
-- 
2.43.0


From d1f8c977020add35651c1dc6f5abf92104fe50a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 13/28] fix: send_transaction refuses a transaction that has
 already been sent

---
 src/blockchaintree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 76a4f78..7fb3fb4 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -548,6 +548,12 @@ impl BlockChainTree {
             ))
             .attach_printable("the signature of the transaction is not valid");
         }
+        if self.main_chain.transaction_exists(&transaction.hash())? {
+            return Err(BlockChainTreeError::BlockChainTree(
+                BCTreeErrorKind::NewTransaction,
+            ))
+            .attach_printable("the transaction has already been sent");
+        }
         let sender_gas_amount = self.get_gas(transaction.get_sender())?;
         let sender_amount = self.get_amount(transaction.get_sender())?;
         let amount_of_bytes = transaction.get_dump_size();
-- 
2.43.0


From a16aa861cc92ce820728faff1a8fcf5aa35ecac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 14/28] fix: send_transaction refuses an amount that overflows
 with the fee instead of panicking

---
 src/blockchaintree.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 7fb3fb4..741a901 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -566,7 +566,13 @@ impl BlockChainTree {
         }
         let last_block = self.main_chain.get_last_block()?.unwrap(); // practically cannot fail
         let fee = tools::recalculate_fee(&last_block.get_info().difficulty);
-        if sender_amount < fee + transaction.get_amount().unwrap_or(U256::zero()) {
+        let coins_required = fee
+            .checked_add(transaction.get_amount().unwrap_or(U256::zero()))
+            .ok_or(BlockChainTreeError::BlockChainTree(
+                BCTreeErrorKind::NewTransaction,
+            ))
+            .attach_printable("fee and amount of the transaction do not fit")?;
+        if sender_amount < coins_required {
             return Err(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::NewTransaction,
             ))
-- 
2.43.0


From 9d1515e045d8e68831f0729c6f72050342fb2b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 15/28] fix: the chain config is completely written and synced
 before it replaces the previous one

---
 src/chain.rs         | 37 ++++++++++++++++++++++++++++++++++---
 src/static_values.rs |  1 +
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 6469012..0f2d59c 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -5,7 +5,10 @@ use error_stack::{Report, ResultExt};
 use parking_lot::RwLock;
 use primitive_types::U256;
 use sled::Db;
-use tokio::{fs::OpenOptions, io::AsyncWriteExt};
+use tokio::{
+    fs::{rename, OpenOptions},
+    io::AsyncWriteExt,
+};
 
 use crate::block::{BlockArc, DerivativeBlock};
 use crate::dump_headers::Headers;
@@ -147,12 +150,13 @@ impl MainChain {
     /// Dumps chain's config
     async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
+        let path_new_config = Path::new(&self.root).join(NEW_CONFIG_FILE);
 
         let mut file = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path_config)
+            .open(&path_new_config)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
@@ -168,6 +172,19 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write difficulty")?;
 
+        file.flush()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to write config")?;
+        file.sync_all()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to sync config")?;
+        rename(&path_new_config, &path_config)
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to replace config")?;
+
         Ok(())
     }
 
@@ -526,12 +543,13 @@ impl DerivativeChain {
     /// Dumps chain's config
     async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
+        let path_new_config = Path::new(&self.root).join(NEW_CONFIG_FILE);
 
         let mut file = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path_config)
+            .open(&path_new_config)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
@@ -552,6 +570,19 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write genesis hash")?;
 
+        file.flush()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to write config")?;
+        file.sync_all()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to sync config")?;
+        rename(&path_new_config, &path_config)
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to replace config")?;
+
         Ok(())
     }
 
diff --git a/src/static_values.rs b/src/static_values.rs
index 224c179..157c46f 100644
--- a/src/static_values.rs
+++ b/src/static_values.rs
@@ -19,6 +19,7 @@ pub static REFERENCES_FOLDER: &str = "REF/";
 pub static TRANSACTIONS_FOLDER: &str = "TRANSACTIONS/";
 
 pub static CONFIG_FILE: &str = "Chain.config";
+pub static NEW_CONFIG_FILE: &str = "Chain.config.new";
 pub static LOOKUP_TABLE_FILE: &str = "LookUpTable.dat";
 pub static TRANSACTIONS_POOL: &str = "TRXS_POOL.pool";
 
-- 
2.43.0


From 2b10a90df116e6fed96de37d79c950f4092fc42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 16/28] fix: a chain's height is persisted only after the
 blocks it counts

---
 src/chain.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 0f2d59c..8705712 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -194,8 +194,6 @@ impl MainChain {
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-        self.dump_config().await?;
-
         self.blocks
             .flush_async()
             .await
@@ -214,7 +212,7 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush transactions")?;
 
-        Ok(())
+        self.dump_config().await
     }
 
     pub fn add_transactions(
@@ -588,8 +586,6 @@ impl DerivativeChain {
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-        self.dump_config().await?;
-
         self.blocks
             .flush_async()
             .await
@@ -602,7 +598,7 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush height references")?;
 
-        Ok(())
+        self.dump_config().await
     }
 
     /// Adds new block to the chain db
-- 
2.43.0


From d60569aeaa2baff6c6834edda1447d440dd94e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 17/28] fix: flushing the tree also flushes its derivative
 chains

---
 src/blockchaintree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 741a901..798c878 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -590,6 +590,9 @@ impl BlockChainTree {
 
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
         self.main_chain.flush().await?;
+        for derivative_chain in self.derivative_chains.values() {
+            derivative_chain.flush().await?;
+        }
         self.summary_db
             .flush_async()
             .await
-- 
2.43.0


From 165c4f5153b7a564dc584c72e9b7d4dc4de4f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 18/28] fix: SummaryDB no longer panics for addresses that are
 not UTF-8

---
 src/summary_db.rs | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/src/summary_db.rs b/src/summary_db.rs
index 2c3c09e..b2b7c88 100644
--- a/src/summary_db.rs
+++ b/src/summary_db.rs
@@ -35,8 +35,7 @@ impl SummaryDB {
                 BCTreeErrorKind::GetDerivChain,
             ))
             .attach_printable(format!(
-                "failed to get data from summary db at address: {}",
-                std::str::from_utf8(addr).unwrap()
+                "failed to get data from summary db at address: {addr:X?}"
             ))),
         }
     }
@@ -64,10 +63,7 @@ impl SummaryDB {
             Ok(None) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::DecreaseFunds,
             ))
-            .attach_printable(format!(
-                "address: {} doesn't have any coins",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("address: {addr:X?} doesn't have any coins"))),
             Ok(Some(prev)) => {
                 let res = tools::load_u256(&prev).change_context(
                     BlockChainTreeError::BlockChainTree(BCTreeErrorKind::DecreaseFunds),
@@ -109,10 +105,7 @@ impl SummaryDB {
             Err(_) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::DecreaseFunds,
             ))
-            .attach_printable(format!(
-                "failed to get data from address: {}",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("failed to get data from address: {addr:X?}"))),
         }
     }
 
@@ -141,8 +134,7 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {addr:X?}"
                     ))?;
 
                 self.db
@@ -152,8 +144,7 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {addr:X?}"
                     ))?;
 
                 Ok(())
@@ -176,10 +167,7 @@ impl SummaryDB {
                     .change_context(BlockChainTreeError::BlockChainTree(
                         BCTreeErrorKind::AddFunds,
                     ))
-                    .attach_printable(format!(
-                        "failed to put funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
-                    ))?;
+                    .attach_printable(format!("failed to put funds at address: {addr:X?}"))?;
 
                 self.db
                     .flush_async()
@@ -188,8 +176,7 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {addr:X?}"
                     ))?;
 
                 Ok(())
@@ -197,10 +184,7 @@ impl SummaryDB {
             Err(_) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::AddFunds,
             ))
-            .attach_printable(format!(
-                "failed to get data from address: {}",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("failed to get data from address: {addr:X?}"))),
         }
     }
 }
-- 
2.43.0


From 349e50a6e657dae4931af70cfbde8e704abbe845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 19/28] fix: SummaryDB::add_funds refuses a balance that does
 not fit instead of panicking

---
 src/summary_db.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/summary_db.rs b/src/summary_db.rs
index b2b7c88..8ddd04d 100644
--- a/src/summary_db.rs
+++ b/src/summary_db.rs
@@ -155,7 +155,12 @@ impl SummaryDB {
                 )?;
 
                 let mut previous = res.0;
-                previous += *funds;
+                previous = previous.checked_add(*funds).ok_or_else(|| {
+                    Report::new(BlockChainTreeError::BlockChainTree(
+                        BCTreeErrorKind::AddFunds,
+                    ))
+                    .attach_printable("the balance does not fit")
+                })?;
 
                 let mut dump: Vec<u8> = Vec::with_capacity(tools::u256_size(&previous));
                 tools::dump_u256(&previous, &mut dump).change_context(
-- 
2.43.0


From e5dcce2ac477cbc4918273c2b12179131c4dc65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 20/28] fix: transactions are equal exactly when their order
 says so

---
 src/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transaction.rs b/src/transaction.rs
index 683410b..15a545d 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -48,7 +48,7 @@ impl PartialOrd for TransactionableItem {
 
 impl PartialEq for TransactionableItem {
     fn eq(&self, other: &Self) -> bool {
-        self.get_timestamp() == other.get_timestamp()
+        self.cmp(other) == Ordering::Equal
     }
 }
 
-- 
2.43.0


From 43339716a8238bf4eb557645f9c910f6f7ec1a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:57 +0000
Subject: [PATCH 21/28] fix: a chain whose config exists but cannot be opened
 is not started afresh

---
 src/chain.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 8705712..b413663 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -1,4 +1,9 @@
-use std::{fs::File, io::Read, path::Path, sync::Arc};
+use std::{
+    fs::File,
+    io::{ErrorKind, Read},
+    path::Path,
+    sync::Arc,
+};
 
 use async_trait::async_trait;
 use error_stack::{Report, ResultExt};
@@ -51,6 +56,11 @@ pub trait Chain {
     ) -> Result<Option<Arc<dyn Block + Send + Sync>>, Report<BlockChainTreeError>>;
 }
 
+/// Whether opening the file failed only because it does not exist
+fn is_absent(file: &std::io::Result<File>) -> bool {
+    matches!(file, Err(e) if e.kind() == ErrorKind::NotFound)
+}
+
 #[derive(Clone)]
 pub struct MainChain {
     blocks: Db,
@@ -92,7 +102,10 @@ impl MainChain {
 
         let file = File::open(path_height);
 
-        let (height, difficulty) = if let Ok(mut file) = file {
+        let (height, difficulty) = if !is_absent(&file) {
+            let mut file = file
+                .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
+                .attach_printable("failed to open config")?;
             let mut height_bytes: [u8; 32] = [0; 32];
             file.read_exact(&mut height_bytes)
                 .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
@@ -492,7 +505,10 @@ impl DerivativeChain {
 
         let file = File::open(path_height);
 
-        let (height, difficulty, genesis_hash) = if let Ok(mut file) = file {
+        let (height, difficulty, genesis_hash) = if !is_absent(&file) {
+            let mut file = file
+                .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
+                .attach_printable("failed to open config")?;
             let mut height_bytes: [u8; 32] = [0; 32];
             file.read_exact(&mut height_bytes)
                 .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
-- 
2.43.0


From 0e668d99d741387830930db6a9e32757ed7cf715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 22/28] fix: add_new_block validates the block against the last
 one

---
 src/blockchaintree.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 798c878..6b74b68 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -380,6 +380,13 @@ impl BlockChainTree {
         block: BlockArc,
         transactions: &[Transaction],
     ) -> Result<(), Report<BlockChainTreeError>> {
+        let last_block = self.main_chain.get_last_block()?;
+        if !block
+            .validate(last_block)
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::FailedToVerify))?
+        {
+            return Err(BlockChainTreeError::Chain(ChainErrorKind::FailedToVerify).into());
+        }
         self.main_chain.add_block(block)?;
 
         self.main_chain.add_transactions(transactions)
-- 
2.43.0


From e48a816509ae9cf28ca8fb6b679611d432b1443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 23/28] fix: a block at the chain height left behind by an
 unflushed run is not part of the chain

---
 src/chain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index b413663..e2fd1ae 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -349,7 +349,7 @@ impl MainChain {
         height: &U256,
     ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
         let chain_height = self.height.read();
-        if height > &chain_height {
+        if height >= &chain_height {
             return Ok(None);
         }
         drop(chain_height);
@@ -662,7 +662,7 @@ impl DerivativeChain {
         height: &U256,
     ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
         let chain_height = self.height.read();
-        if height > &chain_height {
+        if height >= &chain_height {
             return Ok(None);
         }
         drop(chain_height);
-- 
2.43.0


From 38ce377911ae702ccbbcfe145745c083ef972abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 24/28] fix: looking up a hash never returns a block with
 another hash

---
 src/chain.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index e2fd1ae..6eb52a1 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -387,7 +387,8 @@ impl MainChain {
             .find_raw_by_height(&height)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
 
-        Ok(block)
+        // the reference may have been left behind by an unflushed run
+        Ok(block.filter(|block| tools::hash(block) == *hash))
     }
 
     pub fn find_by_hash(
@@ -700,7 +701,8 @@ impl DerivativeChain {
             .find_raw_by_height(&height)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
 
-        Ok(block)
+        // the reference may have been left behind by an unflushed run
+        Ok(block.filter(|block| tools::hash(block) == *hash))
     }
 
     pub fn find_by_hash(
-- 
2.43.0


From 5181d41db25db0699a5e652ecde23e2447ceda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 25/28] fix: MerkleTree::verify_proof rejects an empty proof
 instead of panicking

---
 src/merkletree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/merkletree.rs b/src/merkletree.rs
index 602f650..56e51e6 100644
--- a/src/merkletree.rs
+++ b/src/merkletree.rs
@@ -115,6 +115,10 @@ impl MerkleTree {
     }
 
     pub fn verify_proof(hash: &[u8; 32], root: &[u8; 32], proof: &[&[u8; 32]]) -> bool {
+        if proof.is_empty() {
+            return false;
+        }
+
         let mut hasher = Sha256::new();
         let mut calculated_root: [u8; 32] = [0; 32];
 
-- 
2.43.0


From 49b1d882264b877b2332491065b32266dc33672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:42 +0000
Subject: [PATCH 26/28] fix: flush records the height the chain had before its
 blocks were flushed

---
 src/chain.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 6eb52a1..ce383b0 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -160,8 +160,8 @@ impl MainChain {
     }
     /// Dump config
     ///
-    /// Dumps chain's config
-    async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+    /// Dumps chain's config with the given height
+    async fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
         let path_new_config = Path::new(&self.root).join(NEW_CONFIG_FILE);
 
@@ -173,7 +173,7 @@ impl MainChain {
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
-        self.height.read().to_big_endian(&mut buffer_32_bytes);
+        height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -207,6 +207,9 @@ impl MainChain {
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
+        // blocks appended while flushing may not get flushed
+        let height = self.get_height();
+
         self.blocks
             .flush_async()
             .await
@@ -225,7 +228,7 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush transactions")?;
 
-        self.dump_config().await
+        self.dump_config(height).await
     }
 
     pub fn add_transactions(
@@ -555,8 +558,8 @@ impl DerivativeChain {
 
     /// Dump config
     ///
-    /// Dumps chain's config
-    async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+    /// Dumps chain's config with the given height
+    async fn dump_config(&self, height: U256) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
         let path_new_config = Path::new(&self.root).join(NEW_CONFIG_FILE);
 
@@ -568,7 +571,7 @@ impl DerivativeChain {
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
-        self.height.read().to_big_endian(&mut buffer_32_bytes);
+        height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -603,6 +606,9 @@ impl DerivativeChain {
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
+        // blocks appended while flushing may not get flushed
+        let height = self.get_height();
+
         self.blocks
             .flush_async()
             .await
@@ -615,7 +621,7 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush height references")?;
 
-        self.dump_config().await
+        self.dump_config(height).await
     }
 
     /// Adds new block to the chain db
-- 
2.43.0


From 553a704466a34883161166e6ab0155351da80c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 27/28] fix: an all-zero difficulty is eased by one bit by a
 slow block, not by 249

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 73c3cc2..60db68a 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -223,7 +223,7 @@ pub fn check_pow(
 }
 
 pub fn recalculate_difficulty(prev_timestamp: u64, timestamp: u64, prev_difficulty: &mut Hash) {
-    let mut non_zero_index: usize = 0;
+    let mut non_zero_index: usize = prev_difficulty.len() - 1;
     for (index, val) in prev_difficulty.iter().enumerate() {
         if !0.eq(val) {
             non_zero_index = index;
-- 
2.43.0


From 6f0b8ac1690df2ecd3479be01178c5846e3533e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 28/28] fix: the merkle root of a derivative block is that of
 no transactions, not a panic

---
 src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 02e559b..febf147 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -291,8 +291,8 @@ impl Block for DerivativeBlock {
         Ok(tools::hash(&self.dump()?))
     }
     fn get_merkle_root(&self) -> Hash {
-        unimplemented!()
-        //self.payment_transaction
+        // derivative blocks have no transactions
+        *merkletree::MerkleTree::build_tree(&[]).get_root()
     }
     fn verify_block(&self, prev_hash: &Hash) -> bool {
         self.default_info.previous_hash.eq(prev_hash)
-- 
2.43.0

