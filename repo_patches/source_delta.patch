From cf139fadb0c9eab0778bfa42b8d4ce194e3d67b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 01/27] fix: reject unknown address versions instead of
 panicking when deserializing

---
 stacks-core/src/address.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stacks-core/src/address.rs b/stacks-core/src/address.rs
index a002cb9..019dda8 100644
--- a/stacks-core/src/address.rs
+++ b/stacks-core/src/address.rs
@@ -112,7 +112,13 @@ impl Codec for StacksAddress {
 		let mut version_buffer = [0; 1];
 		data.read_exact(&mut version_buffer)?;
 
-		let version = AddressVersion::from_repr(version_buffer[0]).unwrap();
+		let version = AddressVersion::from_repr(version_buffer[0])
+			.ok_or_else(|| {
+				io::Error::new(
+					io::ErrorKind::InvalidData,
+					format!("Invalid address version: {}", version_buffer[0]),
+				)
+			})?;
 
 		let mut hash_buffer = [0; HASH160_LENGTH];
 		data.read_exact(&mut hash_buffer)?;
-- 
2.43.0


From c67bfedfce97672323ead5e4f87d75d6f0945a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 02/27] fix: reject truncated contract names when deserializing

---
 stacks-core/src/contract_name.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stacks-core/src/contract_name.rs b/stacks-core/src/contract_name.rs
index 5326262..088a14c 100644
--- a/stacks-core/src/contract_name.rs
+++ b/stacks-core/src/contract_name.rs
@@ -2,7 +2,7 @@
 use std::{
 	borrow::Borrow,
 	fmt::{Display, Formatter},
-	io::{self, Read},
+	io,
 	ops::Deref,
 };
 
@@ -83,9 +83,8 @@ impl Codec for ContractName {
 		data.read_exact(&mut length_buffer)?;
 		let contract_name_length = length_buffer[0] as usize;
 
-		let mut name_buffer = Vec::with_capacity(contract_name_length);
-		data.take(contract_name_length as u64)
-			.read_to_end(&mut name_buffer)?;
+		let mut name_buffer = vec![0u8; contract_name_length];
+		data.read_exact(&mut name_buffer)?;
 
 		let contract_name_string = String::from_utf8(name_buffer)
 			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
-- 
2.43.0


From 1c05ec101f62dc0b8f911fdb9fb09b095bfe931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 03/27] fix: keep leading zero bytes of c32 strings written
 with the letter O

---
 stacks-core/src/c32.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stacks-core/src/c32.rs b/stacks-core/src/c32.rs
index 3309db4..a57b4b8 100644
--- a/stacks-core/src/c32.rs
+++ b/stacks-core/src/c32.rs
@@ -161,7 +161,8 @@ pub fn decode(input: impl AsRef<str>) -> Result<Vec<u8>, C32Error> {
 	}
 
 	for byte in input.iter() {
-		if *byte == b'0' {
+		// The letter O is decoded as the digit 0
+		if matches!(*byte, b'0' | b'O' | b'o') {
 			decoded.push(0);
 		} else {
 			break;
-- 
2.43.0


From 3b3ac0cbd3eb83ebdb70c6bbd62e9cd4416ce335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 04/27] fix: return an error when decoding an empty c32check
 string

---
 stacks-core/src/c32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks-core/src/c32.rs b/stacks-core/src/c32.rs
index a57b4b8..0fdab68 100644
--- a/stacks-core/src/c32.rs
+++ b/stacks-core/src/c32.rs
@@ -199,7 +199,7 @@ pub fn version_check_decode(
 ) -> Result<(AddressVersion, Vec<u8>), C32Error> {
 	let input = input.as_ref();
 
-	if !input.is_ascii() {
+	if input.is_empty() || !input.is_ascii() {
 		return Err(C32Error::InvalidC32);
 	}
 
-- 
2.43.0


From 6ff6a1f656044fd673389b0b889e12fa036113d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 05/27] fix: widen Uint without reading past its words

---
 stacks-core/src/uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks-core/src/uint.rs b/stacks-core/src/uint.rs
index 6256ad3..c53feff 100644
--- a/stacks-core/src/uint.rs
+++ b/stacks-core/src/uint.rs
@@ -224,7 +224,7 @@ impl<const N: usize> Uint<N> {
 
 		let mut dest = [0u64; M];
 
-		dest[..M].copy_from_slice(&self.0[..M]);
+		dest[..N].copy_from_slice(&self.0);
 
 		Uint(dest)
 	}
-- 
2.43.0


From 2a864d2e59af43e9b6c430f832a6dd7ca494ed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 06/27] fix: keep outputs with equal script and value when
 reordering

---
 sbtc-core/src/operations/op_return/utils.rs | 28 +++++++++------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/sbtc-core/src/operations/op_return/utils.rs b/sbtc-core/src/operations/op_return/utils.rs
index b6b68d5..d2d0ab0 100644
--- a/sbtc-core/src/operations/op_return/utils.rs
+++ b/sbtc-core/src/operations/op_return/utils.rs
@@ -1,7 +1,5 @@
 //! Utilities for sBTC OP_RETURN transactions
 
-use std::collections::{BTreeMap, HashMap};
-
 use bdk::bitcoin::{
 	blockdata::{opcodes::all::OP_RETURN, script::Builder},
 	Script, TxOut,
@@ -20,23 +18,21 @@ pub fn reorder_outputs(
 	outputs: impl IntoIterator<Item = TxOut>,
 	order: impl IntoIterator<Item = (Script, u64)>,
 ) -> Vec<TxOut> {
-	let indices: HashMap<(Script, u64), usize> = order
-		.into_iter()
-		.enumerate()
-		.map(|(idx, val)| (val, idx))
-		.collect();
+	let mut remaining: Vec<TxOut> = outputs.into_iter().collect();
 
-	let outputs_ordered: BTreeMap<usize, TxOut> = outputs
+	let mut outputs_ordered: Vec<TxOut> = order
 		.into_iter()
-		.map(|txout| {
-			(
-				*indices
-					.get(&(txout.script_pubkey.clone(), txout.value))
-					.unwrap_or(&usize::MAX), // Change amount
-				txout,
-			)
+		.filter_map(|(script_pubkey, value)| {
+			let index = remaining.iter().position(|txout| {
+				txout.script_pubkey == script_pubkey && txout.value == value
+			})?;
+
+			Some(remaining.remove(index))
 		})
 		.collect();
 
-	outputs_ordered.into_values().collect()
+	// Change outputs
+	outputs_ordered.append(&mut remaining);
+
+	outputs_ordered
 }
-- 
2.43.0


From 8d27f9834c9e792671f5aa45be7cf5014bec5b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:54 +0000
Subject: [PATCH 07/27] fix: serialize commit reveal deposit data instead of
 panicking

---
 sbtc-core/src/operations/commit_reveal/deposit.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sbtc-core/src/operations/commit_reveal/deposit.rs b/sbtc-core/src/operations/commit_reveal/deposit.rs
index 20a7f62..fc38f66 100644
--- a/sbtc-core/src/operations/commit_reveal/deposit.rs
+++ b/sbtc-core/src/operations/commit_reveal/deposit.rs
@@ -23,9 +23,7 @@ impl Codec for DepositData {
 	fn codec_serialize<W: io::Write>(&self, dest: &mut W) -> io::Result<()> {
 		Codec::codec_serialize(&Opcode::Deposit, dest)?;
 		self.principal.codec_serialize(dest)?;
-		self.reveal_fee.codec_serialize(dest)?;
-
-		todo!()
+		self.reveal_fee.codec_serialize(dest)
 	}
 
 	fn codec_deserialize<R: io::Read>(data: &mut R) -> io::Result<Self>
-- 
2.43.0


From 38ef6673c4db0720abd298c4e52eeaa79fac736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:36 +0000
Subject: [PATCH 08/27] fix: reject transaction positions beyond the Merkle
 tree's width

---
 .../contracts/clarity-bitcoin-mini-deploy.clar               | 5 +++--
 romeo/asset-contract/contracts/clarity-bitcoin-mini.clar     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/romeo/asset-contract/contracts/clarity-bitcoin-mini-deploy.clar b/romeo/asset-contract/contracts/clarity-bitcoin-mini-deploy.clar
index 8810684..3639f46 100644
--- a/romeo/asset-contract/contracts/clarity-bitcoin-mini-deploy.clar
+++ b/romeo/asset-contract/contracts/clarity-bitcoin-mini-deploy.clar
@@ -77,10 +77,11 @@
 (define-read-only (verify-merkle-proof (reversed-txid (buff 32)) (merkle-root (buff 32)) (proof { tx-index: uint, hashes: (list 14 (buff 32))}))
 	(let ((proof-hashes (get hashes proof))
 		  (proof-length (len proof-hashes)))
-		(get verified
+		;; a tree of this depth has no position at or beyond 2^depth
+		(and (< (get tx-index proof) (pow u2 proof-length)) (get verified
 			(fold inner-merkle-proof-verify
 					(unwrap-panic (slice? (list u0 u1 u2 u3 u4 u5 u6 u7 u8 u9 u10 u11 u12 u13) u0 proof-length))
-					{ path: (+ (pow u2 proof-length) (get tx-index proof)), root-hash: merkle-root, proof-hashes: proof-hashes, cur-hash: reversed-txid, verified: false}))))
+					{ path: (+ (pow u2 proof-length) (get tx-index proof)), root-hash: merkle-root, proof-hashes: proof-hashes, cur-hash: reversed-txid, verified: false})))))
 
 
 (define-read-only (was-txid-mined
diff --git a/romeo/asset-contract/contracts/clarity-bitcoin-mini.clar b/romeo/asset-contract/contracts/clarity-bitcoin-mini.clar
index 89e8a88..7e3aa78 100644
--- a/romeo/asset-contract/contracts/clarity-bitcoin-mini.clar
+++ b/romeo/asset-contract/contracts/clarity-bitcoin-mini.clar
@@ -77,10 +77,11 @@
 (define-read-only (verify-merkle-proof (reversed-txid (buff 32)) (merkle-root (buff 32)) (proof { tx-index: uint, hashes: (list 14 (buff 32))}))
 	(let ((proof-hashes (get hashes proof))
 		  (proof-length (len proof-hashes)))
-		(get verified
+		;; a tree of this depth has no position at or beyond 2^depth
+		(and (< (get tx-index proof) (pow u2 proof-length)) (get verified
 			(fold inner-merkle-proof-verify
 					(unwrap-panic (slice? (list u0 u1 u2 u3 u4 u5 u6 u7 u8 u9 u10 u11 u12 u13) u0 proof-length))
-					{ path: (+ (pow u2 proof-length) (get tx-index proof)), root-hash: merkle-root, proof-hashes: proof-hashes, cur-hash: reversed-txid, verified: false}))))
+					{ path: (+ (pow u2 proof-length) (get tx-index proof)), root-hash: merkle-root, proof-hashes: proof-hashes, cur-hash: reversed-txid, verified: false})))))
 
 
 (define-read-only (was-txid-mined
-- 
2.43.0


From 2d9a4f39802e74ca0fd766fc1619df0e753172a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:03 +0000
Subject: [PATCH 09/27] fix: take a withdrawal's block height from the fetched
 block

A coinbase without a BIP34 height push, as in the first 16 blocks of a
regtest chain, made the relay panic, again on every replay.
---
 romeo/src/state.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index c8e0701..af9957b 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -474,7 +474,7 @@ impl State {
 		*bitcoin_block_height = bitcoin_height;
 
 		deposits.extend(parse_deposits(config, bitcoin_height, &block));
-		withdrawals.extend(parse_withdrawals(config, &block));
+		withdrawals.extend(parse_withdrawals(config, bitcoin_height, &block));
 
 		let mut tasks = vec![Task::FetchBitcoinBlock(bitcoin_height + 1)];
 
@@ -794,12 +794,12 @@ fn parse_deposits(
 		.collect()
 }
 
-fn parse_withdrawals(config: &Config, block: &Block) -> Vec<Withdrawal> {
+fn parse_withdrawals(
+	config: &Config,
+	bitcoin_height: u32,
+	block: &Block,
+) -> Vec<Withdrawal> {
 	let sbtc_wallet_address = config.sbtc_wallet_address();
-	let block_height = block
-		.bip34_block_height()
-		.expect("Failed to get block height") as u32;
-
 	block
 		.txdata
 		.iter()
@@ -835,7 +835,7 @@ fn parse_withdrawals(config: &Config, block: &Block) -> Vec<Withdrawal> {
 							amount,
 							source,
 							recipient: payee_bitcoin_address,
-							block_height,
+							block_height: bitcoin_height,
 						},
 						burn: None,
 						fulfillment: None,
-- 
2.43.0


From 7b8e4df8f2e73a51c89be0b613e27fcceebc1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:03 +0000
Subject: [PATCH 10/27] fix: accept status updates while other requests await
 their broadcast

In strict mode any status update made the relay panic, again on every
replay, as long as another deposit or withdrawal had no transaction yet.
---
 romeo/src/state.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index af9957b..b6eea05 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -314,12 +314,9 @@ impl State {
 							has_pending_task,
 						} = req
 						else {
-							if config.strict {
-								panic!("Got an {:?} status update for a Stacks transaction that is not acknowledged: {}", status, txid);
-							} else {
-								debug!("Ignoring {:?} status update for a Stacks transaction that is not acknowledged: {}", status, txid);
-								return false;
-							}
+							// Another request, whose transaction is yet to be
+							// broadcasted.
+							return false;
 						};
 
 						if txid != *current_txid {
@@ -388,12 +385,9 @@ impl State {
 					has_pending_task,
 				} = req
 				else {
-					if config.strict {
-						panic!("Got an {:?} status update for a Bitcoin transaction that is not acknowledged: txid {} req {:?}", status, txid, req);
-					} else {
-						debug!("Ignoring {:?} status update for a Bitcoin transaction that is not acknowledged: txid {} req {:?}", status, txid, req);
-						return false;
-					};
+					// Another request, whose transaction is yet to be
+					// broadcasted.
+					return false;
 				};
 
 				if txid != *current_txid {
-- 
2.43.0


From 78fb326180bd8577121fb04110d9bc95339a9ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:03 +0000
Subject: [PATCH 11/27] fix: find withdrawals by transaction id when replaying
 events

An address read from the event log may carry another network than the
one parsed from the block (signet, legacy addresses on regtest), so that
the withdrawal was not found and the relay could not be restarted.
---
 romeo/src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index b6eea05..55c4936 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -693,7 +693,7 @@ impl State {
 
 		let withdrawal = withdrawals
 			.iter_mut()
-			.find(|withdrawal| withdrawal.info == withdrawal_info)
+			.find(|withdrawal| withdrawal.info.txid == withdrawal_info.txid)
 			.expect("Could not find a withdrawal for the burn");
 
 		if config.strict {
@@ -722,7 +722,7 @@ impl State {
 
 		let withdrawal = withdrawals
 			.iter_mut()
-			.find(|withdrawal| withdrawal.info == withdrawal_info)
+			.find(|withdrawal| withdrawal.info.txid == withdrawal_info.txid)
 			.expect("Could not find a withdrawal for the fulfillment");
 
 		if config.strict {
-- 
2.43.0


From 525ef970c7a782bce2991557457e8f7f4c6ebae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:53 +0000
Subject: [PATCH 12/27] fix: survive several failed broadcasts in lenient mode

Failed mint and burn broadcasts are recorded with the same placeholder ID.
With two of them the next status update made the relay panic, again on
every replay.
---
 romeo/src/state.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index 55c4936..223d9a8 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -346,10 +346,12 @@ impl State {
 		};
 
 		if let Some(statuses_updated) = statuses_updated {
-			if statuses_updated != 1 {
+			// Requests whose broadcast failed share a placeholder ID, so there
+			// may be several.
+			if statuses_updated == 0 {
 				panic!(
-					"Unexpected number of Stacks statuses updated: {}",
-					statuses_updated
+					"No Stacks transaction to update the status of: {}",
+					txid
 				);
 			}
 		}
-- 
2.43.0


From 580477f56b325257553ea25c5ce8174966209922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:53 +0000
Subject: [PATCH 13/27] fix: check the public key transaction again after a
 restart

A relay stopped while it was polling the status of that transaction never
asked for it again and stayed in the setup state for good.
---
 romeo/src/state.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index 223d9a8..de393dd 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -76,8 +76,17 @@ impl State {
 			}
 			State::ContractPublicKeySetup {
 				stacks_block_height,
+				public_key_setup,
 				..
 			} => {
+				if let TransactionRequest::Acknowledged {
+					has_pending_task,
+					..
+				} = public_key_setup
+				{
+					*has_pending_task = false;
+				}
+
 				vec![Task::FetchStacksBlock(*stacks_block_height + 1)]
 			}
 			State::Initialized {
-- 
2.43.0


From 2e1dfd27734bcad54881fec1591e6859077e1dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:42 +0000
Subject: [PATCH 14/27] fix: use the chain id of the configured Stacks network

---
 romeo/src/stacks_client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index a0820be..f8c5d71 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -10,7 +10,7 @@ use blockstack_lib::{
 		TransactionPostConditionMode,
 	},
 	codec::StacksMessageCodec,
-	core::CHAIN_ID_TESTNET,
+	core::{CHAIN_ID_MAINNET, CHAIN_ID_TESTNET},
 	types::chainstate::StacksPrivateKey,
 	vm::{
 		types::{QualifiedContractIdentifier, StandardPrincipalData},
@@ -22,7 +22,7 @@ use rand::{distributions::Alphanumeric, thread_rng, Rng};
 use reqwest::{Request, RequestBuilder, Response, StatusCode};
 use serde::de::DeserializeOwned;
 use serde_json::Value;
-use stacks_core::{codec::Codec, uint::Uint256};
+use stacks_core::{codec::Codec, uint::Uint256, Network as StacksNetwork};
 use tokio::{
 	sync::{Mutex, MutexGuard},
 	time::sleep,
@@ -139,7 +139,10 @@ impl StacksClient {
 
 		tx.anchor_mode = TransactionAnchorMode::Any;
 		tx.post_condition_mode = TransactionPostConditionMode::Allow;
-		tx.chain_id = CHAIN_ID_TESTNET;
+		tx.chain_id = match self.config.stacks_network {
+			StacksNetwork::Mainnet => CHAIN_ID_MAINNET,
+			StacksNetwork::Testnet => CHAIN_ID_TESTNET,
+		};
 
 		let mut signer = StacksTransactionSigner::new(&tx);
 
-- 
2.43.0


From 6d078f91fb4c648f7e019e9f5688b5c96e0180b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 15/27] fix: try again when the Bitcoin node cannot be reached

---
 romeo/src/bitcoin_client.rs | 56 ++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index f5bc13b..54d0c28 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -24,6 +24,9 @@ use crate::{config::Config, event::TransactionStatus};
 
 const BLOCK_POLLING_INTERVAL: Duration = Duration::from_secs(5);
 
+/// RPC error code for broadcasting a transaction that is already mined
+const TRANSACTION_ALREADY_IN_CHAIN: i32 = -27;
+
 /// Bitcoin RPC client
 #[derive(Clone)]
 pub struct Client {
@@ -96,6 +99,29 @@ impl Client {
 		Ok(spawn_blocking(move || f(client)).await?)
 	}
 
+	/// Same as `execute`, but tries again until the node can be reached
+	async fn execute_until_connected<F, T>(
+		&self,
+		f: F,
+	) -> anyhow::Result<bitcoincore_rpc::Result<T>>
+	where
+		F: Fn(RPCClient) -> bitcoincore_rpc::Result<T> + Clone + Send + 'static,
+		T: Send + 'static,
+	{
+		loop {
+			match self.execute(f.clone()).await? {
+				Err(bitcoincore_rpc::Error::JsonRpc(
+					bitcoincore_rpc::jsonrpc::Error::Transport(_),
+				)) => {
+					trace!("Bitcoin client connection error, retrying...");
+				}
+				res => return Ok(res),
+			}
+
+			sleep(BLOCK_POLLING_INTERVAL).await;
+		}
+	}
+
 	/// Broadcast a transaction
 	pub async fn broadcast(&self, tx: Transaction) -> anyhow::Result<()> {
 		self.execute(move |client| client.send_raw_transaction(&tx))
@@ -143,7 +169,7 @@ impl Client {
 	) -> anyhow::Result<(u32, Block)> {
 		let block_hash = loop {
 			let res = self
-				.execute(move |client| {
+				.execute_until_connected(move |client| {
 					client.get_block_hash(block_height as u64)
 				})
 				.await?;
@@ -169,11 +195,6 @@ impl Client {
 						))?;
 					}
 				}
-				Err(bitcoincore_rpc::Error::JsonRpc(
-					bitcoincore_rpc::jsonrpc::Error::Transport(_),
-				)) => {
-					trace!("Bitcoin client connection error, retrying...");
-				}
 				Err(err) => {
 					Err(anyhow!("Error fetching Bitcoin block: {:?}", err))?
 				}
@@ -183,7 +204,9 @@ impl Client {
 		};
 
 		let block = self
-			.execute(move |client| client.get_block(&block_hash))
+			.execute_until_connected(move |client| {
+				client.get_block(&block_hash)
+			})
 			.await??;
 
 		Ok((block_height, block))
@@ -233,9 +256,22 @@ impl Client {
 			})
 			.await??;
 
-		let txid: Txid = self
-			.execute(move |client| client.send_raw_transaction(&tx))
-			.await??;
+		let txid = tx.txid();
+
+		let res = self
+			.execute_until_connected(move |client| {
+				client.send_raw_transaction(&tx)
+			})
+			.await?;
+
+		match res {
+			Ok(_) => {}
+			// An earlier attempt without a reply got it mined
+			Err(bitcoincore_rpc::Error::JsonRpc(
+				bitcoincore_rpc::jsonrpc::Error::Rpc(err),
+			)) if err.code == TRANSACTION_ALREADY_IN_CHAIN => {}
+			Err(err) => Err(err)?,
+		}
 
 		Ok(txid)
 	}
-- 
2.43.0


From 34caafa473fc7337ab112beefccb4e009dd8ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:58 +0000
Subject: [PATCH 16/27] fix: try again when the fee rate cannot be fetched

---
 romeo/src/stacks_client.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index f8c5d71..9b853a3 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -373,11 +373,9 @@ impl StacksClient {
 
 	async fn calculate_fee(&self, tx_len: u64) -> anyhow::Result<u64> {
 		let fee_rate: u64 = self
-			.http_client
-			.get(self.fee_url())
-			.send()
-			.await?
-			.json()
+			.send_request(|| {
+				self.http_client.get(self.fee_url()).build().unwrap()
+			})
 			.await?;
 
 		// TODO: Figure out what's the right multiplier #98
-- 
2.43.0


From deafa7a0ba8a1605fbbf62e4b77d549513ad7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 17/27] fix: let only one payment choose coins at a time

---
 romeo/src/bitcoin_client.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index 54d0c28..e87b52b 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -34,6 +34,8 @@ pub struct Client {
 	blockchain: Arc<ElectrumBlockchain>,
 	// required for fulfillment txs
 	wallet: Arc<Mutex<Wallet<MemoryDatabase>>>,
+	// held from choosing coins until they are seen as spent
+	spending: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl Client {
@@ -66,6 +68,7 @@ impl Client {
 			config,
 			blockchain: Arc::new(blockchain),
 			wallet: Arc::new(Mutex::new(wallet)),
+			spending: Default::default(),
 		})
 	}
 
@@ -226,6 +229,8 @@ impl Client {
 		&self,
 		outputs: Vec<(Script, u64)>,
 	) -> anyhow::Result<Txid> {
+		let _spending = self.spending.lock().await;
+
 		sleep(Duration::from_secs(3)).await;
 
 		let blockchain = self.blockchain.clone();
-- 
2.43.0


From 02d79dd8bf2815a7667d8cb3d38feb75ae818683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 18/27] fix: fulfill withdrawals of Bitcoin blocks without a
 Stacks block

---
 romeo/src/stacks_client.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index 9b853a3..6efb3db 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -348,20 +348,33 @@ impl StacksClient {
 		Ok(tx)
 	}
 
-	/// Get the block hash for a given Bitcoin height
+	/// Get the hash of the latest Stacks block for a given Bitcoin height.
+	/// Bitcoin blocks without a Stacks block keep the tip of an earlier one.
 	pub async fn get_block_hash_from_bitcoin_height(
 		&mut self,
-		height: u32,
+		mut height: u32,
 	) -> anyhow::Result<Uint256> {
-		let res: Value = self
-			.send_request(|| {
-				self.http_client
-					.get(self.block_by_bitcoin_height_url(height))
-					.header("Accept", "application/json")
-					.build()
-					.unwrap()
-			})
-			.await?;
+		let res: Value = loop {
+			let res = self
+				.send_request(|| {
+					self.http_client
+						.get(self.block_by_bitcoin_height_url(height))
+						.header("Accept", "application/json")
+						.build()
+						.unwrap()
+				})
+				.await;
+
+			match res {
+				Err(err)
+					if height > 0
+						&& err.to_string().contains("404 Not Found") =>
+				{
+					height -= 1
+				}
+				res => break res?,
+			}
+		};
 
 		let hash_str = res["hash"]
 			.as_str()
-- 
2.43.0


From fb0da92837f15f4555ed7c842edb9ff7a4ee63ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 19/27] fix: do not take unreachable nodes or just mined
 transactions for rejected

---
 romeo/src/bitcoin_client.rs | 38 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index e87b52b..3a74f0f 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -24,6 +24,9 @@ use crate::{config::Config, event::TransactionStatus};
 
 const BLOCK_POLLING_INTERVAL: Duration = Duration::from_secs(5);
 
+/// RPC error code for a transaction that is in neither mempool nor chain
+const TRANSACTION_UNKNOWN: i32 = -5;
+
 /// RPC error code for broadcasting a transaction that is already mined
 const TRANSACTION_ALREADY_IN_CHAIN: i32 = -27;
 
@@ -138,26 +141,23 @@ impl Client {
 		&self,
 		txid: Txid,
 	) -> anyhow::Result<TransactionStatus> {
-		let is_confirmed = self
-			.execute(move |client| client.get_raw_transaction_info(&txid, None))
-			.await?
-			.ok()
-			.and_then(|tx| tx.confirmations)
-			.map(|confirmations| confirmations > 0)
-			.unwrap_or_default();
-
-		let in_mempool = self
-			.execute(move |client| client.get_mempool_entry(&txid))
-			.await?
-			.is_ok();
-
-		let res = match (is_confirmed, in_mempool) {
-			(true, false) => TransactionStatus::Confirmed,
-			(false, true) => TransactionStatus::Broadcasted,
-			(false, false) => TransactionStatus::Rejected,
-			(true, true) => {
-				panic!("Transaction cannot be both confirmed and pending")
+		// The node answers for its mempool and its chain at once, so that the
+		// transaction cannot be mined between two requests
+		let info = self
+			.execute_until_connected(move |client| {
+				client.get_raw_transaction_info(&txid, None)
+			})
+			.await?;
+
+		let res = match info {
+			Ok(tx) if tx.confirmations.unwrap_or_default() > 0 => {
+				TransactionStatus::Confirmed
 			}
+			Ok(_) => TransactionStatus::Broadcasted,
+			Err(bitcoincore_rpc::Error::JsonRpc(
+				bitcoincore_rpc::jsonrpc::Error::Rpc(err),
+			)) if err.code == TRANSACTION_UNKNOWN => TransactionStatus::Rejected,
+			Err(err) => Err(err)?,
 		};
 
 		tracing::debug!("BTC TX {} IS {:?}", txid, res);
-- 
2.43.0


From b10a69318d250e7152fca6198ded430bc058c467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 20/27] fix: drop an incomplete last record of the event log

---
 romeo/src/system.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/romeo/src/system.rs b/romeo/src/system.rs
index 30d27b2..5472bef 100644
--- a/romeo/src/system.rs
+++ b/romeo/src/system.rs
@@ -107,14 +107,24 @@ impl Storage {
 			.await
 			.unwrap();
 
-		let mut r = BufReader::new(&mut file).lines();
+		let mut r = BufReader::new(&mut file);
+		let mut line = Vec::new();
+		let mut recorded = 0;
 
-		while let Some(line) = r.next_line().await.unwrap() {
-			let event: Event = serde_json::from_str(&line).unwrap();
+		while r.read_until(b'\n', &mut line).await.unwrap() > 0
+			&& line.ends_with(b"\n")
+		{
+			let event: Event = serde_json::from_slice(&line).unwrap();
 
 			state.update(event, config);
+			recorded += line.len() as u64;
+			line.clear();
 		}
 
+		// Drop a record that was left incomplete, or the next one would be
+		// appended to it
+		file.set_len(recorded).await.unwrap();
+
 		(Self(BufWriter::new(file)), state)
 	}
 
-- 
2.43.0


From b1a1d858df86207b20dd5bf847fc7e826888f8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 21/27] fix: P2WSH addresses of more than 16 keys commit to a
 script with wrong numbers

---
 stacks-core/src/address.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stacks-core/src/address.rs b/stacks-core/src/address.rs
index 019dda8..1f0e0c9 100644
--- a/stacks-core/src/address.rs
+++ b/stacks-core/src/address.rs
@@ -205,10 +205,14 @@ fn hash_p2wsh<'a>(
 	pub_keys: impl IntoIterator<Item = &'a PublicKey>,
 	signature_threshold: usize,
 ) -> Hash160Hasher {
+	// Numbers over 16 have no opcode of their own
+	let number =
+		|number| Builder::new().push_int(number).into_script().into_bytes();
+
 	let mut script = vec![];
 	let mut key_count = 0;
 
-	script.push(signature_threshold as u8 + 80);
+	script.extend(number(signature_threshold as i64));
 
 	for pub_key in pub_keys {
 		let bytes = pub_key.serialize();
@@ -218,7 +222,7 @@ fn hash_p2wsh<'a>(
 		key_count += 1;
 	}
 
-	script.push(key_count + 80);
+	script.extend(number(key_count));
 	script.push(174);
 
 	let digest = Sha256Hasher::new(&script);
-- 
2.43.0


From 59c98849d5ac73c08a44b1e5c30f3e52c0aeeba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 22/27] fix: Bitcoin RPC logins with percent-encoded characters
 are refused

---
 romeo/src/bitcoin_client.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index 3a74f0f..f7abd16 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -85,8 +85,8 @@ impl Client {
 	{
 		let mut url = self.config.bitcoin_node_url.clone();
 
-		let username = url.username().to_string();
-		let password = url.password().unwrap_or_default().to_string();
+		let username = percent_decode(url.username())?;
+		let password = percent_decode(url.password().unwrap_or_default())?;
 
 		if username.is_empty() {
 			return Err(anyhow::anyhow!("Username is empty"));
@@ -282,6 +282,32 @@ impl Client {
 	}
 }
 
+/// Undo the percent-encoding of the user name or password of a URL
+fn percent_decode(text: &str) -> anyhow::Result<String> {
+	let mut bytes = Vec::with_capacity(text.len());
+	let mut rest = text.as_bytes();
+
+	while let Some((&first, tail)) = rest.split_first() {
+		let decoded = match tail.get(..2) {
+			Some(digits) if first == b'%' => hex::decode(digits).ok(),
+			_ => None,
+		};
+
+		match decoded {
+			Some(byte) => {
+				bytes.extend(byte);
+				rest = &tail[2..];
+			}
+			None => {
+				bytes.push(first);
+				rest = tail;
+			}
+		}
+	}
+
+	Ok(String::from_utf8(bytes)?)
+}
+
 #[cfg(test)]
 // test that wallet returns correct address
 mod tests {
-- 
2.43.0


From 04156694c0528a536f2245e750db43f76a1f3222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 23/27] fix: try again to sync the wallet when Electrum does
 not answer

---
 romeo/src/bitcoin_client.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index f7abd16..e5640c8 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -224,6 +224,32 @@ impl Client {
 		Ok(info.blocks as u32)
 	}
 
+	/// Sync the wallet, trying again until Electrum answers
+	async fn sync_until_connected(&self) -> anyhow::Result<()> {
+		loop {
+			let blockchain = self.blockchain.clone();
+			let wallet = self.wallet.clone();
+
+			let res = spawn_blocking(move || {
+				let wallet = wallet
+					.lock()
+					.map_err(|_| anyhow!("Cannot get wallet read lock"))?;
+
+				anyhow::Ok(wallet.sync(&blockchain, SyncOptions::default()))
+			})
+			.await??;
+
+			match res {
+				Err(bdk::Error::Electrum(err)) => {
+					trace!("Electrum error, retrying...: {}", err);
+				}
+				res => return Ok(res?),
+			}
+
+			sleep(BLOCK_POLLING_INTERVAL).await;
+		}
+	}
+
 	/// Sign and broadcast a transaction
 	pub async fn sign_and_broadcast(
 		&self,
@@ -233,7 +259,8 @@ impl Client {
 
 		sleep(Duration::from_secs(3)).await;
 
-		let blockchain = self.blockchain.clone();
+		self.sync_until_connected().await?;
+
 		let wallet = self.wallet.clone();
 
 		let tx: Transaction =
@@ -242,8 +269,6 @@ impl Client {
 					.lock()
 					.map_err(|_| anyhow!("Cannot get wallet read lock"))?;
 
-				wallet.sync(&blockchain, SyncOptions::default())?;
-
 				let mut tx_builder = wallet.build_tx();
 
 				for (script, amount) in outputs.clone() {
-- 
2.43.0


From ec4948cadbcef6bfb7549766c6cc1e81784e3fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 24/27] fix: wait for a Bitcoin node that is starting

---
 romeo/src/bitcoin_client.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index e5640c8..17e243e 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -27,6 +27,9 @@ const BLOCK_POLLING_INTERVAL: Duration = Duration::from_secs(5);
 /// RPC error code for a transaction that is in neither mempool nor chain
 const TRANSACTION_UNKNOWN: i32 = -5;
 
+/// RPC error code of a node that is not ready yet
+const NODE_WARMING_UP: i32 = -28;
+
 /// RPC error code for broadcasting a transaction that is already mined
 const TRANSACTION_ALREADY_IN_CHAIN: i32 = -27;
 
@@ -121,6 +124,11 @@ impl Client {
 				)) => {
 					trace!("Bitcoin client connection error, retrying...");
 				}
+				Err(bitcoincore_rpc::Error::JsonRpc(
+					bitcoincore_rpc::jsonrpc::Error::Rpc(err),
+				)) if err.code == NODE_WARMING_UP => {
+					trace!("Bitcoin node is warming up, retrying...");
+				}
 				res => return Ok(res),
 			}
 
-- 
2.43.0


From df16fcc6a4ffd6ce958ed9f5c0180df95369ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 25/27] fix: try again when the Stacks node answers with a
 server error

---
 romeo/src/stacks_client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index 6efb3db..3f21f95 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -502,7 +502,7 @@ where
 						.unwrap_or(StatusCode::IM_A_TEAPOT)
 						.as_u16();
 					match status_code_number {
-						429 | 522 => {
+						429 | 500..=599 => {
 							backoff::Error::transient(anyhow::anyhow!(err))
 						}
 						_ => backoff::Error::permanent(anyhow::anyhow!(err)),
-- 
2.43.0


From 23a8df29ba9156c86a1fe268c9e159e897b43eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 26/27] fix: report a devnet deposit that could not be built

---
 devenv/utils/deposit.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/devenv/utils/deposit.sh b/devenv/utils/deposit.sh
index 9155b00..4fef53d 100755
--- a/devenv/utils/deposit.sh
+++ b/devenv/utils/deposit.sh
@@ -21,13 +21,13 @@ json=$($dir/../sbtc/bin/sbtc deposit \
     -s $sbtc_wallet_address \
     -u electrs:60401)
 
-echo $json
-
 if [ $? -ne 0 ]; then
     echo 'The deposit failed, did you forget to run "mine_btc.sh"?'
     exit 1
 fi
 
+echo $json
+
 tx=$(echo -n $json | jq -r .hex)
 
 echo $tx
-- 
2.43.0


From 206e7d851537f20de863ffc35f853fad41952f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 27/27] fix: report devnet payments that the node refuses

---
 devenv/utils/deposit.sh  | 3 +++
 devenv/utils/withdraw.sh | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/devenv/utils/deposit.sh b/devenv/utils/deposit.sh
index 4fef53d..f471d25 100755
--- a/devenv/utils/deposit.sh
+++ b/devenv/utils/deposit.sh
@@ -2,6 +2,9 @@
 
 # Gets the default devnet credentials and makes a deposit
 
+# a refused broadcast is a failure
+set -o pipefail
+
 dir="$(dirname "$0")"
 
 # the sbtc wallet (p2tr)
diff --git a/devenv/utils/withdraw.sh b/devenv/utils/withdraw.sh
index b35d359..e81fe33 100755
--- a/devenv/utils/withdraw.sh
+++ b/devenv/utils/withdraw.sh
@@ -2,6 +2,9 @@
 
 # Gets the default devnet credentials and makes a withdrawal
 
+# a refused broadcast is a failure
+set -o pipefail
+
 
 dir="$(dirname "$0")"
 
-- 
2.43.0

