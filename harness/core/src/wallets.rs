//! Funded wallets and an independent validity check for the transactions they sign.
use std::collections::HashMap;

use bdk::{
	bitcoin::{
		hashes::Hash,
		secp256k1::{ecdsa, Message, Secp256k1},
		util::sighash::SighashCache,
		EcdsaSighashType, Network, OutPoint, PrivateKey, Script, Transaction, TxOut, Txid,
	},
	database::{BatchOperations, MemoryDatabase},
	template::P2Wpkh,
	BlockTime, KeychainKind, LocalUtxo, TransactionDetails, Wallet,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use crate::gens::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Coins {
	pub key: [u8; 32],
	pub values: Vec<u64>,
}

impl Coins {
	pub fn total(&self) -> u64 {
		self.values.iter().sum()
	}
	pub fn script(&self) -> Script {
		let h = bdk::bitcoin::hashes::hash160::Hash::hash(&pk(&self.key).serialize());
		Script::from(Addr::P2wpkh(h.into_inner()).script())
	}
	pub fn wallet(&self, network: Network) -> (Wallet<MemoryDatabase>, HashMap<OutPoint, TxOut>) {
		let key = PrivateKey::new(sk(&self.key), network);
		let mut db = MemoryDatabase::new();
		let script = self.script();
		db.set_script_pubkey(&script, KeychainKind::External, 0).unwrap();
		let mut coins = HashMap::new();
		for (i, v) in self.values.iter().enumerate() {
			let txout = TxOut { value: *v, script_pubkey: script.clone() };
			// several coins may come from one funding transaction
			let tx = Transaction {
				version: 1,
				lock_time: bdk::bitcoin::PackedLockTime(i as u32),
				input: vec![],
				output: vec![txout.clone()],
			};
			let txid = tx.txid();
			let outpoint = OutPoint { txid, vout: 0 };
			db.set_tx(&TransactionDetails {
				transaction: Some(tx),
				txid,
				received: *v,
				sent: 0,
				fee: None,
				confirmation_time: Some(BlockTime { height: 1, timestamp: 0 }),
			})
			.unwrap();
			db.set_utxo(&LocalUtxo {
				outpoint,
				txout: txout.clone(),
				keychain: KeychainKind::External,
				is_spent: false,
			})
			.unwrap();
			coins.insert(outpoint, txout);
		}
		(Wallet::new(P2Wpkh(key), Some(P2Wpkh(key)), network, db).unwrap(), coins)
	}
}

pub fn coins() -> impl Strategy<Value = Coins> + Clone {
	let value = prop_oneof![
		3 => 1_000u64..100_000,
		3 => 100_000u64..10_000_000_000,
		1 => 546u64..1_500,
	];
	(seed32(), vec(value, 0..6)).prop_map(|(key, values)| Coins { key, values })
}

/// Checks that `tx` is a valid spend of coins out of `coins`, all of them locked
/// to the P2WPKH key `key`. Returns the fee.
pub fn verify_spend(
	tx: &Transaction,
	coins: &HashMap<OutPoint, TxOut>,
	key: &[u8; 32],
) -> Result<u64, String> {
	let secp = Secp256k1::new();
	let mut seen = std::collections::HashSet::new();
	let mut total_in = 0u64;
	if tx.input.is_empty() {
		return Err("no inputs".into());
	}
	let mut cache = SighashCache::new(tx);
	let pubkey = pk(key);
	let hash = bdk::bitcoin::hashes::hash160::Hash::hash(&pubkey.serialize()).into_inner();
	let script_code = Script::from(Addr::P2pkh(hash).script());
	for (i, input) in tx.input.iter().enumerate() {
		let Some(coin) = coins.get(&input.previous_output) else {
			return Err(format!("input {i} spends a coin the wallet does not own"));
		};
		if !seen.insert(input.previous_output) {
			return Err(format!("input {i} spends a coin twice"));
		}
		total_in += coin.value;
		if !input.script_sig.is_empty() {
			return Err(format!("input {i} has a script_sig"));
		}
		let w = input.witness.to_vec();
		if w.len() != 2 {
			return Err(format!("input {i}: witness has {} items, expected 2", w.len()));
		}
		if w[1] != pubkey.serialize() {
			return Err(format!("input {i}: witness key is not the wallet's"));
		}
		let (flag, der) = w[0].split_last().ok_or("empty signature")?;
		let ty = EcdsaSighashType::from_standard(*flag as u32).map_err(|e| e.to_string())?;
		if ty != EcdsaSighashType::All {
			return Err(format!("input {i}: sighash type {ty:?} does not commit to all outputs"));
		}
		let sig = ecdsa::Signature::from_der(der).map_err(|e| e.to_string())?;
		let sighash = cache
			.segwit_signature_hash(i, &script_code, coin.value, ty)
			.map_err(|e| e.to_string())?;
		let msg = Message::from_slice(&sighash.into_inner()).unwrap();
		secp.verify_ecdsa(&msg, &sig, &pubkey)
			.map_err(|e| format!("input {i}: signature does not verify: {e}"))?;
	}
	let total_out: u64 = tx.output.iter().map(|o| o.value).sum();
	if total_out >= total_in {
		return Err(format!("outputs total {total_out}, inputs total {total_in}"));
	}
	Ok(total_in - total_out)
}

/// The fee must pay for relay and not swallow an output: BDK targets 1 sat/vB
/// and drops a change output only below dust (294 sat for P2WPKH).
pub fn sane_fee(tx: &Transaction, fee: u64) -> Result<(), String> {
	let vsize = (tx.weight() as u64 + 3) / 4;
	if fee + 1 < vsize {
		return Err(format!("fee {fee} for {vsize} vbytes is below 1 sat/vB"));
	}
	let max = vsize + tx.input.len() as u64 * 2 + 40 + 294;
	if fee > max {
		return Err(format!("fee {fee} for {vsize} vbytes exceeds {max}: value was lost to the miner"));
	}
	Ok(())
}

pub fn txid_of(b: [u8; 32]) -> Txid {
	Txid::from_inner(b)
}
