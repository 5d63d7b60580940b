//! C28: proof data against an independent Merkle tree and serialisation.
use crate::blocks::*;
use bdk::bitcoin::{hashes::Hash, Block, Transaction};
use proptest::{collection::vec, prelude::*};
use romeo::proof_data::{BitcoinMerkleTree, ProofData};
use serde::{Deserialize, Serialize};
use vclarity::{hash::sha256d, Value};
use vkit::{ensure, ensure_eq, CheckResult, Outcome, Property, Stage};

/// What the relay passes to the contract, as the contract sees it.
pub fn value(v: &blockstack_lib::vm::types::Value) -> Value {
	Value::deserialize(&v.serialize_to_vec()).expect("a Clarity value")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BlockR {
	pub txs: usize,
	pub height: u32,
	pub version: i32,
	pub seed: u64,
	/// transactions that are not minimal: (position, inputs, outputs, witness items)
	pub shapes: Vec<(u16, u8, u8, u8)>,
	pub witness: bool,
}

impl BlockR {
	pub fn build(&self) -> Block {
		let mut txs = vec![coinbase(self.height, &self.seed.to_le_bytes(), self.witness)];
		for i in 1..self.txs {
			let w = u8::from(self.witness && i % 2 == 1);
			txs.push(filler(self.seed.wrapping_add(i as u64), 1, 1, w));
		}
		for (at, i, o, w) in &self.shapes {
			let at = *at as usize % self.txs;
			if at > 0 {
				txs[at] = filler(self.seed ^ 0xabcd ^ at as u64, i % 5, o % 6, w % 4);
			}
		}
		block(sha256d(&self.seed.to_be_bytes()), self.version, self.seed, txs)
	}
}

pub fn block_r(max: usize) -> impl Strategy<Value = BlockR> {
	let sizes = prop_oneof![
		6 => 2usize..=40,
		3 => prop::sample::select(vec![2usize, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
		1 => 41usize..=300,
	];
	let sizes = if max > 300 {
		prop_oneof![sizes, 300usize..=max, prop::sample::select(vec![255usize, 256, 257, 511, 512, 513, 1023, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384])].boxed()
	} else {
		sizes.boxed()
	};
	let heights = prop_oneof![
		4 => 17u32..1_000_000,
		2 => prop::sample::select(vec![17u32, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 8388607, 8388608, 16777216]),
	];
	let versions = prop_oneof![Just(2i32), Just(4), Just(0x2000_0000), Just(0x7fff_ffff), Just(0x20ff_e000)];
	(sizes, heights, versions, any::<u64>(), vec((any::<u16>(), any::<u8>(), any::<u8>(), any::<u8>()), 0..4), any::<bool>())
		.prop_map(move |(txs, height, version, seed, shapes, witness)| BlockR {
			txs: txs.min(max.max(2)), height, version, seed, shapes, witness,
		})
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	block: BlockR,
	positions: Vec<u32>,
}

fn depth(n: usize) -> usize {
	let mut d = 0;
	while (1usize << d) < n {
		d += 1;
	}
	d
}

fn check(c: &Case) -> CheckResult {
	let block = c.block.build();
	let leaves: Vec<[u8; 32]> = block.txdata.iter().map(txid).collect();
	let rows = merkle_rows(&leaves);
	let root = rows.last().unwrap()[0];
	let header = header_bytes(&block.header);
	ensure_eq!(sha256d(&header), block.block_hash().into_inner(), "harness header");

	let lib_ids: Vec<_> = block.txdata.iter().map(Transaction::txid).collect();
	let tree = BitcoinMerkleTree::new(&lib_ids);
	ensure_eq!(tree.root(), Some(root), "root of the tree");
	ensure_eq!(tree.depth(), depth(c.block.txs) + 1, "depth of the tree");

	let mut positions: Vec<usize> = if c.block.txs <= 40 {
		(0..c.block.txs).collect()
	} else {
		vec![0, 1, c.block.txs - 2, c.block.txs - 1]
	};
	positions.extend(c.positions.iter().map(|p| *p as usize % c.block.txs));
	for at in positions {
		let p = ProofData::from_block_and_index(&block, at);
		let v = p.to_values();
		let mut id = leaves[at];
		let mut cur = id;
		id.reverse();
		ensure_eq!(value(&v.txid), Value::buff(id), "txid of transaction {at} of {}", c.block.txs);
		ensure_eq!(p.reversed_txid.into_inner(), leaves[at], "reversed txid of transaction {at}");
		ensure_eq!(value(&v.tx_index), Value::UInt(at as u128), "index");
		ensure_eq!(value(&v.block_height), Value::UInt(u128::from(c.block.height)), "height");
		ensure_eq!(value(&v.block_header), Value::Buff(header.clone()), "header");
		let Value::List(path) = value(&v.merkle_path) else {
			return Err("the path is no list".into());
		};
		ensure_eq!(path.len(), depth(c.block.txs), "path length for {} transactions", c.block.txs);
		let mut bits = at;
		for (level, x) in path.iter().enumerate() {
			let Value::Buff(x) = x else { return Err(format!("path element {x:?}")) };
			ensure_eq!(x.len(), 32, "path element length");
			cur = if bits % 2 == 0 { node(&cur, x) } else { node(x, &cur) };
			bits /= 2;
			ensure_eq!(cur, rows[level + 1][at >> (level + 1)], "node above transaction {at} of {} at level {level}", c.block.txs);
		}
		ensure_eq!(cur, block.header.merkle_root.into_inner(), "recomputed Merkle root");
		ensure_eq!(p.merkle_root, hex::encode(root), "Merkle root of the proof");
		ensure!(
			vclarity::Type::List(14, Box::new(vclarity::Type::Buff(32))).admits(&Value::List(path)),
			"path does not fit the contract's type"
		);
		ensure_eq!(tree.proof(at).map(|p| p.len()), Some(depth(c.block.txs)), "tree proof");
	}
	Ok(Outcome::new(c.block.txs > 2)
		.label(format!("depth {}", depth(c.block.txs)))
		.label_if(c.block.witness, "witnesses")
		.label_if(c.block.txs.is_power_of_two(), "power of two"))
}

pub fn c28() -> Property {
	let case = |max| {
		move || (block_r(max), vec(any::<u32>(), 0..4)).prop_map(|(block, positions)| Case { block, positions })
	};
	Property::new("C28", "a block of more than two transactions")
		.assume("blocks have at least two transactions, version 2 or later and a BIP34 height of 17 or more, as on all public networks since 2013; at most 2^14 transactions, the contract's limit")
		.stage(Stage::new("small", 40_000, 400_000, case(300), check))
		.stage(Stage::new("large", 100, 2_000, case(16384), check).shrink(60))
}
