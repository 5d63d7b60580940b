//! Bitcoin blocks: built from small recipes, hashed and serialised independently of the library.
use bdk::bitcoin::{
	hashes::Hash, Block, BlockHash, BlockHeader, OutPoint, Script, Sequence, Transaction, TxIn,
	TxMerkleNode, TxOut, Txid, Witness,
};
use vclarity::hash::sha256d;

fn varint(o: &mut Vec<u8>, n: usize) {
	match n {
		0..=0xfc => o.push(n as u8),
		0xfd..=0xffff => {
			o.push(0xfd);
			o.extend((n as u16).to_le_bytes());
		}
		_ => {
			o.push(0xfe);
			o.extend((n as u32).to_le_bytes());
		}
	}
}

/// The transaction without witnesses.
pub fn stripped(tx: &Transaction) -> Vec<u8> {
	let mut o = tx.version.to_le_bytes().to_vec();
	varint(&mut o, tx.input.len());
	for i in &tx.input {
		o.extend(i.previous_output.txid.as_inner());
		o.extend(i.previous_output.vout.to_le_bytes());
		varint(&mut o, i.script_sig.len());
		o.extend(i.script_sig.as_bytes());
		o.extend(i.sequence.0.to_le_bytes());
	}
	varint(&mut o, tx.output.len());
	for t in &tx.output {
		o.extend(t.value.to_le_bytes());
		varint(&mut o, t.script_pubkey.len());
		o.extend(t.script_pubkey.as_bytes());
	}
	o.extend(tx.lock_time.0.to_le_bytes());
	o
}

/// The id in the order of hashing.
pub fn txid(tx: &Transaction) -> [u8; 32] {
	sha256d(&stripped(tx))
}

/// All rows of the tree, each padded to an even length but the last.
pub fn merkle_rows(leaves: &[[u8; 32]]) -> Vec<Vec<[u8; 32]>> {
	let mut rows = vec![leaves.to_vec()];
	while rows.last().unwrap().len() > 1 {
		let row = rows.last_mut().unwrap();
		if row.len() % 2 == 1 {
			row.push(row[row.len() - 1]);
		}
		let next = row.chunks(2).map(|p| node(&p[0], &p[1])).collect();
		rows.push(next);
	}
	rows
}

pub fn node(a: &[u8], b: &[u8]) -> [u8; 32] {
	let mut x = a.to_vec();
	x.extend(b);
	sha256d(&x)
}

pub fn merkle_root(leaves: &[[u8; 32]]) -> [u8; 32] {
	merkle_rows(leaves).last().unwrap()[0]
}

pub fn merkle_path(leaves: &[[u8; 32]], mut at: usize) -> Vec<[u8; 32]> {
	let rows = merkle_rows(leaves);
	let mut path = vec![];
	for row in &rows[..rows.len() - 1] {
		path.push(row[at ^ 1]);
		at /= 2;
	}
	path
}

pub fn header_bytes(h: &BlockHeader) -> Vec<u8> {
	let mut o = h.version.to_le_bytes().to_vec();
	o.extend(h.prev_blockhash.as_inner());
	o.extend(h.merkle_root.as_inner());
	o.extend(h.time.to_le_bytes());
	o.extend(h.bits.to_le_bytes());
	o.extend(h.nonce.to_le_bytes());
	o
}

/// As the coinbase of a block of that height begins (BIP34).
pub fn height_script(height: u32) -> Vec<u8> {
	match height {
		0 => vec![0, 0],
		1..=16 => vec![0x50 + height as u8, 0],
		_ => {
			let mut b = height.to_le_bytes().to_vec();
			while b.last() == Some(&0) {
				b.pop();
			}
			if b.last().unwrap() & 0x80 != 0 {
				b.push(0);
			}
			let mut o = vec![b.len() as u8];
			o.extend(b);
			o
		}
	}
}

pub fn coinbase(height: u32, extra: &[u8], witness: bool) -> Transaction {
	let mut script = height_script(height);
	script.extend(&extra[..extra.len().min(80)]);
	Transaction {
		version: 1,
		lock_time: bdk::bitcoin::PackedLockTime(0),
		input: vec![TxIn {
			previous_output: OutPoint::null(),
			script_sig: Script::from(script),
			sequence: Sequence(0xffff_ffff),
			witness: if witness { Witness::from_vec(vec![vec![0; 32]]) } else { Witness::default() },
		}],
		output: vec![TxOut { value: 50_0000_0000, script_pubkey: Script::from(vec![0x51]) }],
	}
}

/// Some transaction; the same for the same seed.
pub fn filler(seed: u64, inputs: u8, outputs: u8, witness: u8) -> Transaction {
	let h = |a: u8, i: u8| {
		let mut s = seed.to_le_bytes().to_vec();
		s.extend([a, i]);
		sha256d(&s)
	};
	Transaction {
		version: if seed % 3 == 0 { 1 } else { 2 },
		lock_time: bdk::bitcoin::PackedLockTime((seed % 5) as u32),
		input: (0..inputs.max(1))
			.map(|i| TxIn {
				previous_output: OutPoint { txid: Txid::from_inner(h(0, i)), vout: u32::from(i) },
				script_sig: if witness > 0 && seed % 2 == 0 {
					Script::new()
				} else {
					Script::from(h(1, i)[..(seed % 30) as usize].to_vec())
				},
				sequence: Sequence(0xffff_fffd),
				witness: Witness::from_vec((0..witness).map(|w| h(2, w)[..20].to_vec()).collect()),
			})
			.collect(),
		output: (0..outputs.max(1))
			.map(|i| TxOut {
				value: 1000 + u64::from(i) * 7 + seed % 1000,
				script_pubkey: Script::from([vec![0, 20], h(3, i)[..20].to_vec()].concat()),
			})
			.collect(),
	}
}

pub fn block(prev: [u8; 32], version: i32, seed: u64, txdata: Vec<Transaction>) -> Block {
	let leaves: Vec<[u8; 32]> = txdata.iter().map(txid).collect();
	Block {
		header: BlockHeader {
			version,
			prev_blockhash: BlockHash::from_inner(prev),
			merkle_root: TxMerkleNode::from_inner(merkle_root(&leaves)),
			time: 1_700_000_000 + (seed % 100_000) as u32,
			bits: 0x207f_ffff,
			nonce: (seed >> 7) as u32,
		},
		txdata,
	}
}
