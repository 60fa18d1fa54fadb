From 1dcfcf6af5c8c354705386aeb7cfbeb80f1aeedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 01/21] fix: u256_size of zero is the one byte dump_u256 writes

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 773e679..a0cbb9f 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -81,7 +81,7 @@ pub fn load_u256(data: &[u8]) -> Result<(U256, usize), ToolsError> {
 pub fn u256_size(number: &U256) -> usize {
     let bits_size: usize = number.bits();
     if bits_size == 0 {
-        return 2;
+        return 1;
     }
     let mut amount_byte_size: usize = bits_size / 8;
     if number.bits() % 8 != 0 {
-- 
2.43.0


From 2b48e8b71c8f95c137c08f2a637b3547a3179819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 02/21] fix: big-integer decoders return an error on truncated
 input

---
 src/tools.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index a0cbb9f..ca9332e 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -56,13 +56,16 @@ pub fn dump_u256(number: &U256, buffer: &mut Vec<u8>) -> Result<(), ToolsError>
 }
 
 pub fn load_u256(data: &[u8]) -> Result<(U256, usize), ToolsError> {
-    let amount_of_bytes: usize = data[0] as usize;
+    let amount_of_bytes: usize = *data
+        .first()
+        .ok_or_else(|| Report::new(ToolsError::Biguint(BiguintErrorKind::Load)))?
+        as usize;
 
     if amount_of_bytes > 32 {
         return Err(Report::new(ToolsError::Biguint(BiguintErrorKind::Dump)));
     }
 
-    if data.len() < amount_of_bytes {
+    if data.len() <= amount_of_bytes {
         return Err(
             Report::new(ToolsError::Biguint(BiguintErrorKind::Load)).attach_printable(format!(
                 "data = {} // bytes = {}",
@@ -109,9 +112,11 @@ pub fn dump_biguint(number: &BigUint, buffer: &mut Vec<u8>) -> Result<(), ToolsE
 }
 
 pub fn load_biguint(data: &[u8]) -> Result<(BigUint, usize), ToolsError> {
-    let amount_of_bunches: u8 = data[0];
+    let amount_of_bunches: u8 = *data
+        .first()
+        .ok_or_else(|| Report::new(ToolsError::Biguint(BiguintErrorKind::Load)))?;
     let amount_of_bytes: usize = amount_of_bunches as usize; //*4;
-    if data.len() < amount_of_bytes {
+    if data.len() <= amount_of_bytes {
         return Err(
             Report::new(ToolsError::Biguint(BiguintErrorKind::Load)).attach_printable(format!(
                 "data = {} // bytes = {}",
-- 
2.43.0


From ba6c18d2f4d0bdca6e6696cd6e250887cfd5f766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 03/21] fix: block decoders return an error on truncated input

---
 src/block.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 2fba3f2..453c11f 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -24,6 +24,9 @@ macro_rules! bytes_to_u64 {
     };
 }
 
+/// Timestamp, previous hash, pow, difficulty and founder
+const BASIC_INFO_FIXED_SIZE: usize = 8 + 32 + 32 + 32 + 33;
+
 #[derive(Debug, Clone)]
 pub struct BasicInfo {
     pub timestamp: u64,
@@ -85,10 +88,10 @@ impl BasicInfo {
     pub fn parse(data: &[u8]) -> Result<BasicInfo, BlockError> {
         let mut index: usize = 0;
 
-        if data.len() <= 105 {
+        if data.len() <= BASIC_INFO_FIXED_SIZE {
             return Err(
                 Report::new(BlockError::BasicInfo(BasicInfoErrorKind::Parse))
-                    .attach_printable("data <= 105"),
+                    .attach_printable(format!("data <= {}", BASIC_INFO_FIXED_SIZE)),
             );
         }
 
@@ -191,13 +194,22 @@ impl TransactionBlock {
     pub fn parse(data: &[u8]) -> Result<Self, BlockError> {
         let mut index: usize = 0;
 
+        if data.len() <= 32 {
+            return Err(
+                Report::new(BlockError::TransactionBlock(TxBlockErrorKind::Parse))
+                    .attach_printable("data length <= 32"),
+            );
+        }
+
         let merkle_tree_root: Hash = unsafe { data[0..32].try_into().unwrap_unchecked() };
         index += 32;
 
         let default_info = BasicInfo::parse(&data[index..])
             .change_context(BlockError::TransactionBlock(TxBlockErrorKind::Parse))
             .attach_printable("Error parsing default data")?;
-        index += default_info.get_dump_size();
+        // the height may be encoded with leading zeros
+        index += BASIC_INFO_FIXED_SIZE;
+        index += 1 + data[index] as usize;
 
         let (fee, fee_size) = tools::load_u256(&data[index..])
             .change_context(BlockError::TransactionBlock(TxBlockErrorKind::Parse))
-- 
2.43.0


From 5863df989db221fe8ed5855b33ee1cdcf867d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 04/21] fix: reading an empty derivative block record is an
 error, not a panic

---
 src/chain.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 6469012..343b672 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -668,7 +668,7 @@ impl DerivativeChain {
 
         let deserialized = if let Some(data) = dump {
             Some(Arc::new(
-                block::DerivativeBlock::parse(&data[1..])
+                block::DerivativeBlock::parse(data.get(1..).unwrap_or(&[]))
                     .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHeight))
                     .attach_printable(format!(
                         "Failed to deserialize latest main chain block with hash {:?}",
@@ -700,7 +700,7 @@ impl DerivativeChain {
 
         let deserialized = if let Some(data) = dump {
             Some(
-                block::DerivativeBlock::parse(&data[1..])
+                block::DerivativeBlock::parse(data.get(1..).unwrap_or(&[]))
                     .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHeight))
                     .attach_printable(
                         "Failed to deserialize latest main chain block".to_string(),
@@ -722,7 +722,7 @@ impl DerivativeChain {
 
         let deserialized = if let Some(data) = dump {
             Some(Arc::new(
-                block::DerivativeBlock::parse(&data[1..])
+                block::DerivativeBlock::parse(data.get(1..).unwrap_or(&[]))
                     .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHeight))
                     .attach_printable(format!(
                         "Failed to deserialize deriv chain block with height {}",
-- 
2.43.0


From 88ef890619285c7a903e0efe90a33d952089bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 05/21] fix: validate checks the proof of work over the
 previous hash, as emission does

---
 src/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 453c11f..18047d6 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -329,7 +329,7 @@ impl Block for DerivativeBlock {
         }
 
         if !check_pow(
-            &self.get_merkle_root(),
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
@@ -424,7 +424,7 @@ impl Block for TransactionBlock {
         }
 
         if !check_pow(
-            &self.merkle_tree_root,
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
@@ -560,7 +560,7 @@ impl Block for SummarizeBlock {
         }
 
         if !check_pow(
-            &self.merkle_tree_root,
+            &self.default_info.previous_hash,
             &prev_block.get_info().difficulty,
             self.transactions().unwrap_or(&[]),
             &self.default_info.pow,
-- 
2.43.0


From b1d707de3e7c5c8a01df612196034f3046d29411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 06/21] fix: difficulty retargeting is defined for every
 threshold and time

---
 src/tools.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index ca9332e..894600f 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -222,24 +222,24 @@ pub fn check_pow(
 }
 
 pub fn recalculate_difficulty(prev_timestamp: u64, timestamp: u64, prev_difficulty: &mut Hash) {
-    let mut non_zero_index: usize = 0;
+    let mut non_zero_index: usize = prev_difficulty.len() - 1;
     for (index, val) in prev_difficulty.iter().enumerate() {
         if !0.eq(val) {
             non_zero_index = index;
             break;
         };
     }
-    match (timestamp - prev_timestamp).cmp(&TIME_PER_BLOCK) {
+    match timestamp.saturating_sub(prev_timestamp).cmp(&TIME_PER_BLOCK) {
         Ordering::Less => {
             let val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index) };
             *val >>= 1;
         }
         Ordering::Greater => {
             let mut val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index) };
-            if non_zero_index == 0 && *val == 0x7f {
+            if non_zero_index == 0 && *val >= 0x40 {
                 return;
             }
-            if *val == 0xFF {
+            if *val >= 0x80 {
                 val = unsafe { prev_difficulty.get_unchecked_mut(non_zero_index - 1) };
             }
             *val <<= 1;
-- 
2.43.0


From 36459da941b5a07742d19980445358ced903a9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 07/21] fix: sending gas to oneself creates no gas

---
 src/blockchaintree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 7d578d8..ce7f49c 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -290,6 +290,9 @@ impl BlockChainTree {
         to: &[u8],
         amount: U256,
     ) -> Result<(), Report<BlockChainTreeError>> {
+        if from == to {
+            return Ok(());
+        }
         self.gas_db
             .transaction(
                 |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
-- 
2.43.0


From 5a1a43d64abb008cb4979c394bbe4586ab5f589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 08/21] fix: a refused or failed balance change is an error,
 not a panic

---
 src/blockchaintree.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index ce7f49c..4579143 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -29,6 +29,17 @@ pub struct BlockChainTree {
     root_folder: String,
 }
 
+/// Error of a balance change that was aborted or could not be stored
+fn failed_transaction(
+    kind: BCTreeErrorKind,
+    error: sled::transaction::TransactionError<()>,
+) -> Report<BlockChainTreeError> {
+    Report::new(BlockChainTreeError::BlockChainTree(kind)).attach_printable(match error {
+        sled::transaction::TransactionError::Abort(()) => "insufficient balance".to_string(),
+        sled::transaction::TransactionError::Storage(e) => e.to_string(),
+    })
+}
+
 impl BlockChainTree {
     pub fn new(root_folder: &str) -> Result<Self, Report<BlockChainTreeError>> {
         let root = Path::new(root_folder);
@@ -69,7 +80,7 @@ impl BlockChainTree {
                         Ok(())
                     },
                 )
-                .unwrap();
+                .map_err(|e| failed_transaction(BCTreeErrorKind::Init, e))?;
         }
         Ok(Self {
             main_chain,
@@ -123,7 +134,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| failed_transaction(BCTreeErrorKind::AddFunds, e))?;
 
         Ok(())
     }
@@ -142,7 +153,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| failed_transaction(BCTreeErrorKind::AddFunds, e))?;
 
         Ok(())
     }
@@ -169,7 +180,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| failed_transaction(BCTreeErrorKind::DecreaseFunds, e))?;
 
         Ok(())
     }
@@ -224,7 +235,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| failed_transaction(BCTreeErrorKind::DecreaseFunds, e))?;
 
         Ok(())
     }
@@ -244,7 +255,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| failed_transaction(BCTreeErrorKind::AddFunds, e))?;
 
         Ok(())
     }
@@ -266,7 +277,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| failed_transaction(BCTreeErrorKind::DecreaseFunds, e))?;
 
         Ok(())
     }
@@ -321,7 +332,7 @@ impl BlockChainTree {
                     Ok(())
                 },
             )
-            .unwrap();
+            .map_err(|e| failed_transaction(BCTreeErrorKind::DecreaseFunds, e))?;
 
         Ok(())
     }
-- 
2.43.0


From 8d0393ae5dbbc1d7a2f744fd2129c5c9146997e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 09/21] fix: reopening a tree without blocks keeps the root
 balance

---
 src/blockchaintree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 4579143..e8abea9 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -73,6 +73,10 @@ impl BlockChainTree {
             summary_db
                 .transaction(
                     |db| -> Result<(), sled::transaction::ConflictableTransactionError<()>> {
+                        // reopened before the first block was added
+                        if db.get(&(ROOT_PUBLIC_ADDRESS) as &[u8])?.is_some() {
+                            return Ok(());
+                        }
                         let mut buf: Vec<u8> =
                             Vec::with_capacity(tools::u256_size(&COINS_PER_CYCLE));
                         tools::dump_u256(&COINS_PER_CYCLE, &mut buf).unwrap();
-- 
2.43.0


From c03d0e70936dd12271ee95d9860b3a3e6025735e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 10/21] fix: the chain config is replaced atomically

---
 src/chain.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 343b672..5089dc8 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -147,12 +147,13 @@ impl MainChain {
     /// Dumps chain's config
     async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
+        let path_new_config = path_config.with_extension("new");
 
         let mut file = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path_config)
+            .open(&path_new_config)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
@@ -168,6 +169,16 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write difficulty")?;
 
+        // the previous config stays until the new one is complete
+        file.sync_all()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to sync config")?;
+        tokio::fs::rename(&path_new_config, &path_config)
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to replace config")?;
+
         Ok(())
     }
 
@@ -526,12 +537,13 @@ impl DerivativeChain {
     /// Dumps chain's config
     async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
+        let path_new_config = path_config.with_extension("new");
 
         let mut file = OpenOptions::new()
             .write(true)
             .create(true)
             .truncate(true)
-            .open(path_config)
+            .open(&path_new_config)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
@@ -552,6 +564,16 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to write genesis hash")?;
 
+        // the previous config stays until the new one is complete
+        file.sync_all()
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to sync config")?;
+        tokio::fs::rename(&path_new_config, &path_config)
+            .await
+            .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
+            .attach_printable("failed to replace config")?;
+
         Ok(())
     }
 
-- 
2.43.0


From c95b0b62e3045b204ea791d98529c8b659a03f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 11/21] fix: a flushed height never exceeds the flushed blocks

---
 src/chain.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 5089dc8..ff4f924 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -144,8 +144,8 @@ impl MainChain {
     }
     /// Dump config
     ///
-    /// Dumps chain's config
-    async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+    /// Dumps chain's config with the given height
+    async fn dump_config(&self, height: &U256) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
         let path_new_config = path_config.with_extension("new");
 
@@ -157,7 +157,7 @@ impl MainChain {
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
-        self.height.read().to_big_endian(&mut buffer_32_bytes);
+        height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -188,7 +188,7 @@ impl MainChain {
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-        self.dump_config().await?;
+        let height = self.get_height();
 
         self.blocks
             .flush_async()
@@ -208,7 +208,8 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush transactions")?;
 
-        Ok(())
+        // only after the blocks it counts are on disk
+        self.dump_config(&height).await
     }
 
     pub fn add_transactions(
@@ -534,8 +535,8 @@ impl DerivativeChain {
 
     /// Dump config
     ///
-    /// Dumps chain's config
-    async fn dump_config(&self) -> Result<(), Report<BlockChainTreeError>> {
+    /// Dumps chain's config with the given height
+    async fn dump_config(&self, height: &U256) -> Result<(), Report<BlockChainTreeError>> {
         let path_config = Path::new(&self.root).join(CONFIG_FILE);
         let path_new_config = path_config.with_extension("new");
 
@@ -547,7 +548,7 @@ impl DerivativeChain {
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))?;
         let mut buffer_32_bytes: [u8; 32] = [0; 32];
-        self.height.read().to_big_endian(&mut buffer_32_bytes);
+        height.to_big_endian(&mut buffer_32_bytes);
         file.write_all(&buffer_32_bytes)
             .await
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
@@ -579,7 +580,7 @@ impl DerivativeChain {
 
     /// Flushes all DBs and config
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
-        self.dump_config().await?;
+        let height = self.get_height();
 
         self.blocks
             .flush_async()
@@ -593,7 +594,8 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::DumpConfig))
             .attach_printable("failed to flush height references")?;
 
-        Ok(())
+        // only after the blocks it counts are on disk
+        self.dump_config(&height).await
     }
 
     /// Adds new block to the chain db
-- 
2.43.0


From 9f31147c7b70709f8ea5cf2d0cc5796cb6387a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 12/21] fix: no block is found at the height of the chain

---
 src/chain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index ff4f924..d9b33c7 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -333,7 +333,7 @@ impl MainChain {
         height: &U256,
     ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
         let chain_height = self.height.read();
-        if height > &chain_height {
+        if height >= &*chain_height {
             return Ok(None);
         }
         drop(chain_height);
@@ -643,7 +643,7 @@ impl DerivativeChain {
         height: &U256,
     ) -> Result<Option<Vec<u8>>, Report<BlockChainTreeError>> {
         let chain_height = self.height.read();
-        if height > &chain_height {
+        if height >= &*chain_height {
             return Ok(None);
         }
         drop(chain_height);
-- 
2.43.0


From b3da03e361afafc5705846fcc041a2c052a2d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 13/21] fix: a block is found only by its own hash

---
 src/chain.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index d9b33c7..836da3d 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -371,7 +371,8 @@ impl MainChain {
             .find_raw_by_height(&height)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
 
-        Ok(block)
+        // the reference may be left from a block that a crash cut off
+        Ok(block.filter(|dump| tools::hash(dump) == *hash))
     }
 
     pub fn find_by_hash(
@@ -681,7 +682,8 @@ impl DerivativeChain {
             .find_raw_by_height(&height)
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::FindByHashE))?;
 
-        Ok(block)
+        // the reference may be left from a block that a crash cut off
+        Ok(block.filter(|dump| tools::hash(dump) == *hash))
     }
 
     pub fn find_by_hash(
-- 
2.43.0


From 7379b251750ee351a29843fa5ef3e1f4ade61475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 14/21] fix: transactions of the same time are equal only if
 their hashes are

---
 src/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transaction.rs b/src/transaction.rs
index 683410b..15a545d 100644
--- a/src/transaction.rs
+++ b/src/transaction.rs
@@ -48,7 +48,7 @@ impl PartialOrd for TransactionableItem {
 
 impl PartialEq for TransactionableItem {
     fn eq(&self, other: &Self) -> bool {
-        self.get_timestamp() == other.get_timestamp()
+        self.cmp(other) == Ordering::Equal
     }
 }
 
-- 
2.43.0


From 69b5dd79b7bbb69ae70fe86e6544c72b96b14950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 15/21] fix: errors about addresses that are not UTF-8 do not
 panic

---
 src/summary_db.rs | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/src/summary_db.rs b/src/summary_db.rs
index 2c3c09e..b2b7c88 100644
--- a/src/summary_db.rs
+++ b/src/summary_db.rs
@@ -35,8 +35,7 @@ impl SummaryDB {
                 BCTreeErrorKind::GetDerivChain,
             ))
             .attach_printable(format!(
-                "failed to get data from summary db at address: {}",
-                std::str::from_utf8(addr).unwrap()
+                "failed to get data from summary db at address: {addr:X?}"
             ))),
         }
     }
@@ -64,10 +63,7 @@ impl SummaryDB {
             Ok(None) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::DecreaseFunds,
             ))
-            .attach_printable(format!(
-                "address: {} doesn't have any coins",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("address: {addr:X?} doesn't have any coins"))),
             Ok(Some(prev)) => {
                 let res = tools::load_u256(&prev).change_context(
                     BlockChainTreeError::BlockChainTree(BCTreeErrorKind::DecreaseFunds),
@@ -109,10 +105,7 @@ impl SummaryDB {
             Err(_) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::DecreaseFunds,
             ))
-            .attach_printable(format!(
-                "failed to get data from address: {}",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("failed to get data from address: {addr:X?}"))),
         }
     }
 
@@ -141,8 +134,7 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {addr:X?}"
                     ))?;
 
                 self.db
@@ -152,8 +144,7 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {addr:X?}"
                     ))?;
 
                 Ok(())
@@ -176,10 +167,7 @@ impl SummaryDB {
                     .change_context(BlockChainTreeError::BlockChainTree(
                         BCTreeErrorKind::AddFunds,
                     ))
-                    .attach_printable(format!(
-                        "failed to put funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
-                    ))?;
+                    .attach_printable(format!("failed to put funds at address: {addr:X?}"))?;
 
                 self.db
                     .flush_async()
@@ -188,8 +176,7 @@ impl SummaryDB {
                         BCTreeErrorKind::AddFunds,
                     ))
                     .attach_printable(format!(
-                        "failed to create and add funds at address: {}",
-                        std::str::from_utf8(addr).unwrap()
+                        "failed to create and add funds at address: {addr:X?}"
                     ))?;
 
                 Ok(())
@@ -197,10 +184,7 @@ impl SummaryDB {
             Err(_) => Err(Report::new(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::AddFunds,
             ))
-            .attach_printable(format!(
-                "failed to get data from address: {}",
-                std::str::from_utf8(addr).unwrap()
-            ))),
+            .attach_printable(format!("failed to get data from address: {addr:X?}"))),
         }
     }
 }
-- 
2.43.0


From 03578eac181a48d33cea5dd3dfdedf9636ee4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 16/21] fix: flushing the tree flushes its derivative chains

---
 src/blockchaintree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index e8abea9..637ef40 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -533,6 +533,9 @@ impl BlockChainTree {
 
     pub async fn flush(&self) -> Result<(), Report<BlockChainTreeError>> {
         self.main_chain.flush().await?;
+        for derivative_chain in self.derivative_chains.values() {
+            derivative_chain.flush().await?;
+        }
         self.summary_db
             .flush_async()
             .await
-- 
2.43.0


From 32783bddd7672ba476d31da744d2c95bb54501aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 17/21] fix: balances beyond 256 bits are refused with an
 error, not a panic

---
 src/blockchaintree.rs | 23 +++++++++++++++++------
 src/summary_db.rs     |  7 ++++++-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 637ef40..233b260 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -35,7 +35,9 @@ fn failed_transaction(
     error: sled::transaction::TransactionError<()>,
 ) -> Report<BlockChainTreeError> {
     Report::new(BlockChainTreeError::BlockChainTree(kind)).attach_printable(match error {
-        sled::transaction::TransactionError::Abort(()) => "insufficient balance".to_string(),
+        sled::transaction::TransactionError::Abort(()) => {
+            "insufficient balance or resulting balance out of range".to_string()
+        }
         sled::transaction::TransactionError::Storage(e) => e.to_string(),
     })
 }
@@ -131,7 +133,9 @@ impl BlockChainTree {
                         Some(v) => tools::load_u256(&v).unwrap().0,
                         None => U256::zero(),
                     };
-                    let new_amount = prev_amount + amount;
+                    let new_amount = prev_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&new_amount));
                     tools::dump_u256(&new_amount, &mut buf).unwrap();
                     db.insert(owner, buf)?;
@@ -227,7 +231,9 @@ impl BlockChainTree {
                     }
 
                     from_amount -= amount;
-                    to_amount += amount;
+                    to_amount = to_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
 
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&from_amount));
                     tools::dump_u256(&from_amount, &mut buf).unwrap();
@@ -252,7 +258,9 @@ impl BlockChainTree {
                         Some(v) => tools::load_u256(&v).unwrap().0,
                         None => U256::zero(),
                     };
-                    let new_amount = prev_amount + amount;
+                    let new_amount = prev_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&new_amount));
                     tools::dump_u256(&new_amount, &mut buf).unwrap();
                     db.insert(owner, buf)?;
@@ -324,7 +332,9 @@ impl BlockChainTree {
                     }
 
                     from_amount -= amount;
-                    to_amount += amount;
+                    to_amount = to_amount
+                        .checked_add(amount)
+                        .ok_or(sled::transaction::ConflictableTransactionError::Abort(()))?;
 
                     let mut buf: Vec<u8> = Vec::with_capacity(tools::u256_size(&from_amount));
                     tools::dump_u256(&from_amount, &mut buf).unwrap();
@@ -515,7 +525,8 @@ impl BlockChainTree {
         }
         let last_block = self.main_chain.get_last_block()?.unwrap(); // practically cannot fail
         let fee = tools::recalculate_fee(&last_block.get_info().difficulty);
-        if sender_amount < fee + transaction.get_amount().unwrap_or(U256::zero()) {
+        let coins_required = fee.checked_add(transaction.get_amount().unwrap_or(U256::zero()));
+        if coins_required.map_or(true, |required| sender_amount < required) {
             return Err(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::NewTransaction,
             ))
diff --git a/src/summary_db.rs b/src/summary_db.rs
index b2b7c88..72b0211 100644
--- a/src/summary_db.rs
+++ b/src/summary_db.rs
@@ -155,7 +155,12 @@ impl SummaryDB {
                 )?;
 
                 let mut previous = res.0;
-                previous += *funds;
+                previous = previous.checked_add(*funds).ok_or_else(|| {
+                    Report::new(BlockChainTreeError::BlockChainTree(
+                        BCTreeErrorKind::AddFunds,
+                    ))
+                    .attach_printable("resulting balance out of range")
+                })?;
 
                 let mut dump: Vec<u8> = Vec::with_capacity(tools::u256_size(&previous));
                 tools::dump_u256(&previous, &mut dump).change_context(
-- 
2.43.0


From 957cf53692688817a4b569b46a66d9224c4aedbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:37 +0000
Subject: [PATCH 18/21] fix: the coins of the first cycle survive a crash after
 later blocks were flushed

---
 src/blockchaintree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 233b260..bb6f5af 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -87,6 +87,11 @@ impl BlockChainTree {
                     },
                 )
                 .map_err(|e| failed_transaction(BCTreeErrorKind::Init, e))?;
+            // the coins must not be lost once a later block is on disk
+            summary_db
+                .flush()
+                .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::Init))
+                .attach_printable("failed to flush summary db")?;
         }
         Ok(Self {
             main_chain,
-- 
2.43.0


From 31bf3031d621bfb6ba0dd65b3d9ba640db33241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:41 +0000
Subject: [PATCH 19/21] fix: an unreadable config is an error, not an empty
 chain

---
 src/chain.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 836da3d..d3e323d 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -1,4 +1,9 @@
-use std::{fs::File, io::Read, path::Path, sync::Arc};
+use std::{
+    fs::File,
+    io::{ErrorKind, Read},
+    path::Path,
+    sync::Arc,
+};
 
 use async_trait::async_trait;
 use error_stack::{Report, ResultExt};
@@ -87,9 +92,16 @@ impl MainChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open transactions db")?;
 
-        let file = File::open(path_height);
+        let file = match File::open(path_height) {
+            // nothing was flushed yet
+            Err(e) if e.kind() == ErrorKind::NotFound => None,
+            file => Some(
+                file.change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
+                    .attach_printable("failed to open config")?,
+            ),
+        };
 
-        let (height, difficulty) = if let Ok(mut file) = file {
+        let (height, difficulty) = if let Some(mut file) = file {
             let mut height_bytes: [u8; 32] = [0; 32];
             file.read_exact(&mut height_bytes)
                 .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
@@ -488,9 +500,16 @@ impl DerivativeChain {
             .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
             .attach_printable("failed to open references db")?;
 
-        let file = File::open(path_height);
+        let file = match File::open(path_height) {
+            // nothing was flushed yet
+            Err(e) if e.kind() == ErrorKind::NotFound => None,
+            file => Some(
+                file.change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
+                    .attach_printable("failed to open config")?,
+            ),
+        };
 
-        let (height, difficulty, genesis_hash) = if let Ok(mut file) = file {
+        let (height, difficulty, genesis_hash) = if let Some(mut file) = file {
             let mut height_bytes: [u8; 32] = [0; 32];
             file.read_exact(&mut height_bytes)
                 .change_context(BlockChainTreeError::Chain(ChainErrorKind::Init))
-- 
2.43.0


From a8d2ed86c69cc2d5782b0bac2838fb026cf27557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 20/21] fix: a failed epoch change can be repeated and begins
 no new cycle

Directories of the old snapshot that are missing or already there no longer
make every later attempt fail, and the root account keeps its coins if the
block cannot be stored.
---
 src/blockchaintree.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index bb6f5af..1d30c07 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -42,6 +42,14 @@ fn failed_transaction(
     })
 }
 
+/// Removes the folder, if an interrupted attempt did not do so already
+fn remove_dir_if_exists(path: &Path) -> std::io::Result<()> {
+    match fs::remove_dir_all(path) {
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(()),
+        result => result,
+    }
+}
+
 impl BlockChainTree {
     pub fn new(root_folder: &str) -> Result<Self, Report<BlockChainTreeError>> {
         let root = Path::new(root_folder);
@@ -472,6 +480,7 @@ impl BlockChainTree {
             difficulty,
             founder: *founder,
         };
+        let mut last_cycle_amount = None;
         let new_block: block::BlockArc =
             if ((last_block.get_info().height + 1) % BLOCKS_PER_EPOCH).is_zero() {
                 if !transactions.is_empty() {
@@ -489,6 +498,7 @@ impl BlockChainTree {
                 });
                 self.rotate_dbs().await?;
 
+                last_cycle_amount = Some(self.get_amount(&ROOT_PUBLIC_ADDRESS)?);
                 self.set_amount(&ROOT_PUBLIC_ADDRESS as &[u8], *COINS_PER_CYCLE)?;
 
                 summarize_block
@@ -510,7 +520,13 @@ impl BlockChainTree {
                 transaction_block
             };
 
-        self.main_chain.add_block(new_block.clone())?;
+        if let Err(e) = self.main_chain.add_block(new_block.clone()) {
+            // without its block the new cycle has not begun
+            if let Some(amount) = last_cycle_amount {
+                self.set_amount(&ROOT_PUBLIC_ADDRESS as &[u8], amount)?;
+            }
+            return Err(e);
+        }
         Ok(new_block)
     }
 
@@ -589,25 +605,25 @@ impl BlockChainTree {
         let path_gas = root.join(GAS_SUMMARY);
         let path_gas_old = root.join(OLD_GAS_SUMMARY);
 
-        fs::remove_dir_all(&path_summary_old)
+        remove_dir_if_exists(&path_summary_old)
             .change_context(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::MoveSummaryDB,
             ))
             .attach_printable("failed to remove previous summary database")?;
 
-        fs::create_dir(&path_summary_old)
+        fs::create_dir_all(&path_summary_old)
             .change_context(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::MoveSummaryDB,
             ))
             .attach_printable("failed to create previous summary database folder")?;
 
-        fs::remove_dir_all(&path_gas_old)
+        remove_dir_if_exists(&path_gas_old)
             .change_context(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::MoveSummaryDB,
             ))
             .attach_printable("failed to remove previous gas database")?;
 
-        fs::create_dir(&path_gas_old)
+        fs::create_dir_all(&path_gas_old)
             .change_context(BlockChainTreeError::BlockChainTree(
                 BCTreeErrorKind::MoveSummaryDB,
             ))
-- 
2.43.0


From 2f2020ef36cb68eb9528e20c482aaeb6ca20e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 21/21] fix: a main chain without its last block is an error,
 not a panic

---
 src/blockchaintree.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/blockchaintree.rs b/src/blockchaintree.rs
index 1d30c07..8305c7e 100644
--- a/src/blockchaintree.rs
+++ b/src/blockchaintree.rs
@@ -119,7 +119,7 @@ impl BlockChainTree {
         if let Some(chain) = self.derivative_chains.get(owner) {
             return Ok(chain.clone());
         }
-        let last_block = self.main_chain.get_last_block()?.unwrap(); // practically cannot fail
+        let last_block = self.last_main_block()?;
         let derivative_chain = chain::DerivativeChain::new(
             &self.root_folder,
             &hex::encode(owner),
@@ -130,6 +130,14 @@ impl BlockChainTree {
         Ok(derivative_chain)
     }
 
+    /// The last block of the main chain, an error if the chain lacks it
+    fn last_main_block(&self) -> Result<BlockArc, Report<BlockChainTreeError>> {
+        self.main_chain
+            .get_last_block()?
+            .ok_or(BlockChainTreeError::Chain(ChainErrorKind::FindByHeight))
+            .attach_printable("the last block of the main chain is missing")
+    }
+
     pub fn get_main_chain(&self) -> chain::MainChain {
         self.main_chain.clone()
     }
@@ -460,7 +468,7 @@ impl BlockChainTree {
         transactions: &[Hash],
         timestamp: u64,
     ) -> Result<block::BlockArc, Report<BlockChainTreeError>> {
-        let last_block = self.main_chain.get_last_block()?.unwrap(); // practically cannot fail
+        let last_block = self.last_main_block()?;
         let prev_hash = last_block
             .hash()
             .change_context(BlockChainTreeError::BlockChainTree(BCTreeErrorKind::DumpDb))
@@ -544,7 +552,7 @@ impl BlockChainTree {
             ))
             .attach_printable("not enough gas for the transaction");
         }
-        let last_block = self.main_chain.get_last_block()?.unwrap(); // practically cannot fail
+        let last_block = self.last_main_block()?;
         let fee = tools::recalculate_fee(&last_block.get_info().difficulty);
         let coins_required = fee.checked_add(transaction.get_amount().unwrap_or(U256::zero()));
         if coins_required.map_or(true, |required| sender_amount < required) {
-- 
2.43.0

