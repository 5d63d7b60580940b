//! C29-C31: the Clarity contracts, run by an interpreter, against models.
use crate::{
	blocks::*,
	proof::{block_r, value, BlockR},
};
use proptest::{collection::vec, prelude::*};
use romeo::proof_data::ProofData;
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, collections::BTreeMap};
use vclarity::{hash::sha256d, Called, Principal, Value, World};
use vkit::{ensure, ensure_eq, CheckResult, Outcome, Probe, Property, Stage};

pub const CONTRACTS: &str = "/repo/romeo/asset-contract/contracts";
pub const MINI: &str = "clarity-bitcoin-mini";

/// The interpreter says nothing about the contract: no verdict is possible.
fn give_up(m: String) -> ! {
	eprintln!("the Clarity interpreter does not support this contract: {m}");
	std::process::exit(3)
}

pub fn deployer() -> Principal {
	Principal::new(26, [0xd0; 20])
}

/// A chain with the contracts, with the verification contract in its debug or its real form.
pub fn world(debug: bool) -> World {
	thread_local! {
		static WORLDS: RefCell<BTreeMap<bool, World>> = const { RefCell::new(BTreeMap::new()) };
	}
	WORLDS.with(|w| {
		w.borrow_mut()
			.entry(debug)
			.or_insert_with(|| deploy(deployer(), "asset", debug))
			.clone()
	})
}

pub fn deploy(by: Principal, asset: &str, debug: bool) -> World {
	let mini = if debug { format!("{MINI}.clar") } else { format!("{MINI}-deploy.clar") };
	let mut w = World::new(by);
	for (name, file) in [(MINI, mini.as_str()), (asset, "asset.clar")] {
		let text = std::fs::read_to_string(format!("{CONTRACTS}/{file}"))
			.unwrap_or_else(|e| give_up(format!("{file}: {e}")));
		w.deploy(name, &text).unwrap_or_else(|e| give_up(format!("{file}: {e:?}")));
	}
	w
}

fn call(w: &mut World, from: &Principal, via: &Principal, c: &str, f: &str, a: &[Value]) -> Called {
	w.call(from, via, c, f, a).unwrap_or_else(|m| give_up(m))
}
fn read(w: &mut World, c: &str, f: &str, a: &[Value]) -> Called {
	w.read(c, f, a).unwrap_or_else(|m| give_up(m))
}

/// Tells the contracts about a block header (in the order of hashing).
pub fn add_header(w: &mut World, debug: bool, height: u32, header: &[u8]) -> Result<(), String> {
	let mut hash = sha256d(header);
	hash.reverse();
	if debug {
		let me = w.deployer.clone();
		let a = [Value::buff(hash), Value::UInt(height.into())];
		let r = call(w, &me, &me, MINI, "debug-insert-burn-header-hash", &a);
		ensure!(r.is_ok(), "cannot tell the debug contract about a block: {r:?}");
	} else {
		w.burn_headers.insert(height.into(), hash);
	}
	Ok(())
}

/// A block known by its transaction ids only.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BlockM {
	txs: u16,
	seed: u64,
}

struct Mined {
	height: u32,
	leaves: Vec<[u8; 32]>,
	header: Vec<u8>,
}

impl BlockM {
	fn leaves(&self) -> Vec<[u8; 32]> {
		(0..self.txs.max(2))
			.map(|i| {
				let mut s = self.seed.to_be_bytes().to_vec();
				s.extend(i.to_be_bytes());
				sha256d(&s)
			})
			.collect()
	}
}

fn header_for(seed: u64, root: [u8; 32]) -> Vec<u8> {
	let mut h = vec![0, 0, 0, 0x20];
	h.extend(sha256d(&[&seed.to_be_bytes()[..], b"prev"].concat()));
	h.extend(root);
	h.extend(&sha256d(&seed.to_le_bytes())[..12]);
	h
}

fn blocks(sizes: impl Strategy<Value = u16> + 'static, n: std::ops::Range<usize>) -> impl Strategy<Value = Vec<BlockM>> {
	vec((sizes, any::<u64>()).prop_map(|(txs, seed)| BlockM { txs, seed }), n)
}

/// Arguments of a proof; what the contract is asked.
#[derive(Clone, Debug)]
struct Proof {
	height: u128,
	txid: Vec<u8>,
	header: Vec<u8>,
	index: u128,
	path: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
	TxFlip(u8),
	TxOther(u16),
	TxReversed,
	TxShort(u8),
	/// ask about the node above, with what is left of the path
	Inner(u8),
	IndexFlip(u8),
	IndexAdd(i8),
	IndexOver(u8),
	PathFlip(u8, u8),
	PathDrop(u8),
	PathPush(u64),
	PathSwap(u8, u8),
	PathShort(u8),
	PathEmpty,
	PathRepeat(u8),
	HeaderFlip(u16),
	HeaderOther(u8),
	HeaderShort(u8),
	HeaderLong(u8),
	/// a header whose root is what the proof connects to
	HeaderFits,
	HeightOther(u8),
	HeightMissing(u32),
	HeightHuge,
}

fn mutation() -> impl Strategy<Value = Mut> + Clone {
	use Mut::*;
	prop_oneof![
		any::<u8>().prop_map(TxFlip),
		any::<u16>().prop_map(TxOther),
		Just(TxReversed),
		(1u8..=32).prop_map(TxShort),
		(1u8..=6).prop_map(Inner),
		any::<u8>().prop_map(IndexFlip),
		any::<i8>().prop_map(IndexAdd),
		any::<u8>().prop_map(IndexOver),
		any::<(u8, u8)>().prop_map(|(a, b)| PathFlip(a, b)),
		any::<u8>().prop_map(PathDrop),
		any::<u64>().prop_map(PathPush),
		any::<(u8, u8)>().prop_map(|(a, b)| PathSwap(a, b)),
		any::<u8>().prop_map(PathShort),
		Just(PathEmpty),
		any::<u8>().prop_map(PathRepeat),
		(0u16..640).prop_map(HeaderFlip),
		any::<u8>().prop_map(HeaderOther),
		prop_oneof![0u8..80, Just(79u8), Just(67), Just(68)].prop_map(HeaderShort),
		(1u8..3).prop_map(HeaderLong),
		Just(HeaderFits),
		any::<u8>().prop_map(HeightOther),
		any::<u32>().prop_map(HeightMissing),
		Just(HeightHuge),
	]
}

fn rev(x: &[u8]) -> Vec<u8> {
	x.iter().rev().copied().collect()
}

fn flip(x: &mut [u8], bit: usize) {
	if !x.is_empty() {
		let bit = bit % (x.len() * 8);
		x[bit / 8] ^= 1 << (bit % 8);
	}
}

impl Proof {
	fn of(b: &Mined, at: usize) -> Self {
		Self {
			height: b.height.into(),
			txid: rev(&b.leaves[at]),
			header: b.header.clone(),
			index: at as u128,
			path: merkle_path(&b.leaves, at).into_iter().map(|x| x.to_vec()).collect(),
		}
	}

	/// Where the path leads, if it has the shape of one.
	fn root(&self) -> Option<[u8; 32]> {
		let mut cur: [u8; 32] = rev(&self.txid).try_into().ok()?;
		if self.path.is_empty() || self.path.len() > 14 || self.index >> self.path.len() != 0 {
			return None;
		}
		for (i, x) in self.path.iter().enumerate() {
			if x.len() != 32 {
				return None;
			}
			cur = if self.index >> i & 1 == 0 { node(&cur, x) } else { node(x, &cur) };
		}
		Some(cur)
	}

	fn mutate(&mut self, m: &Mut, chain: &[Mined], at: usize) {
		use Mut::*;
		let n = self.path.len();
		match m {
			TxFlip(b) => flip(&mut self.txid, *b as usize),
			TxOther(i) => {
				let l = &chain[at].leaves;
				self.txid = rev(&l[*i as usize % l.len()]);
			}
			TxReversed => self.txid.reverse(),
			TxShort(k) => {
				let k = self.txid.len().saturating_sub(*k as usize);
				self.txid.truncate(k);
			}
			Inner(k) => {
				for _ in 0..*k {
					if self.path.len() < 2 || self.txid.len() != 32 {
						break;
					}
					let x = self.path.remove(0);
					let cur = rev(&self.txid);
					let up = if self.index % 2 == 0 { node(&cur, &x) } else { node(&x, &cur) };
					self.txid = rev(&up);
					self.index /= 2;
				}
			}
			IndexFlip(b) => self.index ^= 1 << (b % 128),
			IndexAdd(d) => self.index = self.index.wrapping_add_signed((*d).into()),
			IndexOver(k) => {
				let k = u128::from(*k) + 1;
				self.index = self.index.wrapping_add(k << n.min(120));
			}
			PathFlip(i, b) if n > 0 => flip(&mut self.path[*i as usize % n], *b as usize),
			PathDrop(i) if n > 0 => {
				self.path.remove(*i as usize % n);
			}
			PathPush(s) => self.path.push(sha256d(&s.to_be_bytes()).to_vec()),
			PathSwap(i, j) if n > 0 => self.path.swap(*i as usize % n, *j as usize % n),
			PathShort(i) if n > 0 => {
				self.path[*i as usize % n].pop();
			}
			PathEmpty => self.path.clear(),
			PathRepeat(k) if n > 0 => {
				let k = usize::from(*k) % 16;
				while self.path.len() < k {
					let x = self.path[self.path.len() - n].clone();
					self.path.push(x);
				}
			}
			HeaderFlip(b) => flip(&mut self.header, *b as usize),
			HeaderOther(i) => self.header = chain[*i as usize % chain.len()].header.clone(),
			HeaderShort(k) => self.header.truncate(*k as usize),
			HeaderLong(k) => self.header.extend(std::iter::repeat_n(0, *k as usize)),
			HeaderFits => {
				if let (Some(r), true) = (self.root(), self.header.len() >= 68) {
					self.header[36..68].copy_from_slice(&r);
				}
			}
			HeightOther(i) => self.height = chain[*i as usize % chain.len()].height.into(),
			HeightMissing(h) => self.height = u128::from(*h) + 3_000_000,
			HeightHuge => self.height |= 1 << 64,
			_ => {}
		}
	}

	/// The header is the one of the chain at that height.
	fn header_ok<'a>(&self, chain: &'a [Mined]) -> Option<&'a Mined> {
		chain.iter().find(|b| u128::from(b.height) == self.height && b.header == self.header)
	}

	fn valid(&self, chain: &[Mined]) -> bool {
		self.header_ok(chain).is_some()
			&& self.root().is_some_and(|r| r == self.header[36..68])
	}

	fn path_value(&self) -> Value {
		Value::List(self.path.iter().cloned().map(Value::Buff).collect())
	}

	/// Arguments of was-txid-mined.
	fn mini_args(&self) -> Vec<Value> {
		let mut t = BTreeMap::new();
		t.insert("tx-index".to_string(), Value::UInt(self.index));
		t.insert("hashes".to_string(), self.path_value());
		vec![
			Value::UInt(self.height),
			Value::Buff(self.txid.clone()),
			Value::Buff(self.header.clone()),
			Value::Tuple(t),
		]
	}

	/// The arguments of mint and burn after the amount and the account.
	fn asset_args(&self) -> Vec<Value> {
		vec![
			Value::Buff(self.txid.clone()),
			Value::UInt(self.height),
			self.path_value(),
			Value::UInt(self.index),
			Value::Buff(self.header.clone()),
		]
	}
}

fn chain_of(w: &mut World, debug: bool, blocks: &[BlockM], copy: Option<(u16, u16)>) -> Result<Vec<Mined>, String> {
	let mut chain = vec![];
	for (i, b) in blocks.iter().enumerate() {
		let mut leaves = b.leaves();
		if let (Some((from, to)), 1) = (copy, i) {
			// the same transaction in two blocks
			let first: &Mined = &chain[0];
			let n = leaves.len();
			leaves[to as usize % n] = first.leaves[from as usize % first.leaves.len()];
		}
		let height = 100 + 7 * i as u32;
		let header = header_for(b.seed, merkle_root(&leaves));
		add_header(w, debug, height, &header)?;
		chain.push(Mined { height, leaves, header });
	}
	Ok(chain)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MinedCase {
	debug: bool,
	blocks: Vec<BlockM>,
	at: (u8, u32),
	muts: Vec<Mut>,
	/// someone tells the contract about a header of their own
	rogue: bool,
}

fn agree(w: &mut World, p: &Proof, accept: bool) -> Result<(), String> {
	let anyone = Principal::new(26, [9; 20]);
	let r = call(w, &anyone, &anyone, MINI, "was-txid-mined", &p.mini_args());
	ensure_eq!(r.is_ok(), accept, "was-txid-mined says {r:?} about {p:?}; acceptance");
	let r = call(w, &anyone, &anyone, "asset", "verify-txid-exists-on-burn-chain", &p.asset_args());
	ensure_eq!(r.is_ok(), accept, "verify-txid-exists-on-burn-chain says {r:?} about {p:?}; acceptance");
	Ok(())
}

fn mined(c: &MinedCase) -> CheckResult {
	let mut w = world(c.debug);
	let chain = chain_of(&mut w, c.debug, &c.blocks, None)?;
	let b = c.at.0 as usize % chain.len();
	let at = c.at.1 as usize % chain[b].leaves.len();
	let mut p = Proof::of(&chain[b], at);
	for m in &c.muts {
		p.mutate(m, &chain, b);
	}
	let expect = p.valid(&chain);
	agree(&mut w, &p, expect)?;
	if c.rogue && !c.debug && p.header.len() == 80 {
		// the real contract takes nobody's word for what is on the Bitcoin chain
		let mut hash = sha256d(&p.header);
		hash.reverse();
		let anyone = Principal::new(26, [8; 20]);
		if w.has_function(MINI, "debug-insert-burn-header-hash") {
			let a = [Value::buff(hash), Value::UInt(p.height)];
			call(&mut w, &anyone, &anyone, MINI, "debug-insert-burn-header-hash", &a);
			agree(&mut w, &p, expect)?;
		}
	}
	Ok(Outcome::new(true)
		.label(if expect { "accepted" } else { "rejected" })
		.label_if(!expect && p.header_ok(&chain).is_some(), "rejected by its path")
		.label_if(c.debug, "debug contract")
		.label_if(expect && !c.muts.is_empty(), "accepted after changes"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RelayCase {
	debug: bool,
	block: BlockR,
	at: u32,
	other_height: i8,
}

/// What the relay sends is accepted, at the height of the block and no other.
fn relayed(c: &RelayCase) -> CheckResult {
	let block = c.block.build();
	let at = c.at as usize % block.txdata.len();
	let v = ProofData::from_block_and_index(&block, at).to_values();
	let mut w = world(c.debug);
	add_header(&mut w, c.debug, c.block.height, &header_bytes(&block.header))?;
	let mut args = vec![
		value(&v.txid),
		value(&v.block_height),
		value(&v.merkle_path),
		value(&v.tx_index),
		value(&v.block_header),
	];
	let anyone = Principal::new(26, [9; 20]);
	let f = "verify-txid-exists-on-burn-chain";
	let r = call(&mut w, &anyone, &anyone, "asset", f, &args);
	ensure!(r.is_ok(), "the relay's proof of transaction {at} of {} is rejected: {r:?}", block.txdata.len());
	if c.other_height != 0 {
		args[1] = Value::UInt(u128::from(c.block.height).wrapping_add_signed(c.other_height.into()));
		let r = call(&mut w, &anyone, &anyone, "asset", f, &args);
		ensure!(!r.is_ok(), "accepted at another height: {r:?}");
	}
	Ok(Outcome::new(true).label(if c.debug { "debug contract" } else { "real contract" }))
}

pub fn c31() -> Property {
	let sizes = || prop_oneof![8 => 2u16..=24, 1 => prop::sample::select(vec![32u16, 33, 64, 65, 100])];
	let case = move || {
		(any::<bool>(), blocks(sizes(), 1..4), any::<(u8, u32)>(),
			prop_oneof![1 => Just(0usize), 6 => Just(1), 3 => Just(2), 1 => Just(3)].prop_flat_map(|n| vec(mutation(), n)),
			any::<bool>())
			.prop_map(|(debug, blocks, at, muts, rogue)| MinedCase { debug, blocks, at, muts, rogue })
	};
	let relay = |max| {
		move || (any::<bool>(), block_r(max), any::<u32>(), -3i8..4)
			.prop_map(|(debug, block, at, other_height)| RelayCase { debug, block, at, other_height })
	};
	Property::new("C31", "always")
		.assume("the chain's headers are 80 bytes long; the debug contract is told the chain's headers through its debug function; Clarity is run by the interpreter in harness/clarity, which passes the contracts' own Clarity tests")
		.stage(Stage::new("mutations", 120_000, 2_000_000, case, mined))
		.stage(Stage::new("relay", 20_000, 300_000, relay(300), relayed))
		.stage(Stage::new("relay large", 80, 2_000, relay(16384), relayed).shrink(60))
}

// ---- histories of calls

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Who {
	Owner,
	P(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Amount {
	Small(u16),
	/// the account's balance, give or take
	Balance(i8),
	/// what is left of the maximal supply, give or take
	Room(i8),
	Huge(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tx {
	block: u8,
	at: u16,
	muts: Vec<Mut>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
	Mint(Amount, Who, Tx),
	Burn(Amount, Who, Tx),
	Transfer(Amount, Who, Who, Option<u8>),
	SetOwner(Who),
	SetKey(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
	debug: bool,
	blocks: Vec<BlockM>,
	copy: Option<(u16, u16)>,
	/// sender, direct caller if another, what
	steps: Vec<(Who, Option<Who>, Step)>,
}

const PRINCIPALS: u8 = 7;
fn principal(i: u8) -> Principal {
	match i % PRINCIPALS {
		0 => deployer(),
		4 => Principal::new(26, [3; 20]).contract("wallet"),
		5 => deployer().contract("asset"),
		6 => Principal::new(22, [1; 20]),
		i => Principal::new(26, [i; 20]),
	}
}

#[derive(Clone, Debug, PartialEq)]
struct Model {
	owner: Principal,
	key: Option<Vec<u8>>,
	balances: BTreeMap<Principal, u128>,
	used: BTreeMap<Vec<u8>, i128>,
}

const MAX_SUPPLY: u128 = 2_100_000_000_000_000;

impl Model {
	fn supply(&self) -> u128 {
		self.balances.values().sum()
	}
	fn who(&self, w: Who) -> Principal {
		match w {
			Who::Owner => self.owner.clone(),
			Who::P(i) => principal(i),
		}
	}
	fn balance(&self, p: &Principal) -> u128 {
		self.balances.get(p).copied().unwrap_or(0)
	}
	fn amount(&self, a: &Amount, of: &Principal) -> u128 {
		match a {
			Amount::Small(n) => u128::from(*n),
			Amount::Balance(d) => self.balance(of).saturating_add_signed((*d).into()),
			Amount::Room(d) => (MAX_SUPPLY - self.supply()).saturating_add_signed((*d).into()),
			Amount::Huge(k) => [u128::MAX, 1 << 127, i128::MAX as u128, 1 << 64, MAX_SUPPLY][*k as usize % 5],
		}
	}
}

fn get(w: &mut World, f: &str, args: &[Value]) -> Result<Value, String> {
	match read(w, "asset", f, args) {
		Called::Value(v) => Ok(v),
		x => Err(format!("{f} fails: {x:?}")),
	}
}

struct Judge {
	/// C29: who may do what, and what it changes
	accounts: bool,
	/// C30: proofs and transactions used
	proofs: bool,
}

fn history(c: &History, judge: &Judge) -> CheckResult {
	let mut w = world(c.debug);
	let chain = chain_of(&mut w, c.debug, &c.blocks, c.copy)?;
	let mut m = Model {
		owner: deployer(),
		key: None,
		balances: BTreeMap::new(),
		used: BTreeMap::new(),
	};
	let (mut done, mut refused, mut replays, mut retried) = (0, 0, 0, 0);
	let mut failed_before: Vec<Vec<u8>> = vec![];
	for (i, (from, via, step)) in c.steps.iter().enumerate() {
		let from = m.who(*from);
		let via = via.map_or(from.clone(), |v| m.who(v));
		let is_owner = via == m.owner;
		let before = m.clone();
		let what = format!("step {i} by {from:?} via {via:?}: {step:?}");
		match step {
			Step::Mint(a, who, tx) | Step::Burn(a, who, tx) => {
				let mint = matches!(step, Step::Mint(..));
				let who = m.who(*who);
				let amount = m.amount(a, &who);
				let b = tx.block as usize % chain.len();
				let mut p = Proof::of(&chain[b], tx.at as usize % chain[b].leaves.len());
				for x in &tx.muts {
					p.mutate(x, &chain, b);
				}
				let mut args = vec![Value::UInt(amount), Value::Principal(who.clone())];
				args.extend(p.asset_args());
				let f = if mint { "mint" } else { "burn" };
				let r = call(&mut w, &from, &via, "asset", f, &args);
				let valid = p.valid(&chain);
				let fresh = !m.used.contains_key(&p.txid);
				let affordable = amount > 0
					&& amount <= i128::MAX as u128
					&& if mint { m.supply().checked_add(amount).is_some_and(|s| s <= MAX_SUPPLY) } else { m.balance(&who) >= amount };
				if judge.accounts {
					ensure!(!r.is_ok() || is_owner, "{what}: {f} of {amount} by someone who is not the owner {:?} succeeds", m.owner);
					ensure!(!r.is_ok() || mint || amount <= m.balance(&who), "{what}: burns {amount} of {}", m.balance(&who));
				}
				if judge.proofs {
					if r.is_ok() {
						ensure!(fresh, "{what}: {f} uses transaction {} again", hex::encode(&p.txid));
						let Some(block) = p.header_ok(&chain) else {
							return Err(format!("{what}: {f} succeeds without a header of the chain: {p:?}"));
						};
						ensure!(
							// the position is C31's
							Proof { index: p.index & ((1 << p.path.len()) - 1), ..p.clone() }.valid(&chain),
							"{what}: {f} succeeds with a path that does not connect: {p:?}"
						);
						let leaf = rev(&p.txid);
						ensure!(
							block.leaves.iter().any(|l| l[..] == leaf),
							"[inner-node]{what}: {f} succeeds for an inner node of the Merkle tree: {p:?}"
						);
					}
					ensure!(
						r.is_ok() || !(is_owner && valid && fresh && affordable),
						"{what}: {f} of {amount} with a valid proof of an unused transaction fails: {r:?}"
					);
				}
				if r.is_ok() {
					done += 1;
					retried += u32::from(failed_before.contains(&p.txid));
					let b = m.balance(&who);
					m.balances.insert(who, if mint { b.wrapping_add(amount) } else { b.wrapping_sub(amount) });
					m.used.insert(p.txid, if mint { amount as i128 } else { -(amount as i128) });
				} else {
					refused += 1;
					replays += u32::from(is_owner && valid && affordable && !fresh);
					if fresh {
						failed_before.push(p.txid);
					}
				}
			}
			Step::Transfer(a, sender, to, memo) => {
				let (sender, to) = (m.who(*sender), m.who(*to));
				let amount = m.amount(a, &sender);
				let memo_v = Value::Optional(memo.map(|n| Box::new(Value::Buff(vec![7; n as usize % 40]))));
				let fits = memo.is_none_or(|n| n % 40 <= 34);
				let args = [
					Value::UInt(amount),
					Value::Principal(sender.clone()),
					Value::Principal(to.clone()),
					memo_v,
				];
				let r = call(&mut w, &from, &via, "asset", "transfer", &args);
				let own = from == sender || via == sender;
				let possible = amount > 0 && sender != to && m.balance(&sender) >= amount;
				if judge.accounts {
					ensure!(!r.is_ok() || own, "{what}: tokens of {sender:?} are moved by someone else");
					ensure!(!r.is_ok() || possible, "{what}: impossible transfer of {amount} succeeds");
					ensure!(r.is_ok() || !(own && possible && fits), "{what}: transfer of {amount} fails: {r:?}");
				}
				if r.is_ok() {
					done += 1;
					let b = m.balance(&sender);
					m.balances.insert(sender, b.wrapping_sub(amount));
					let b = m.balance(&to);
					m.balances.insert(to, b.wrapping_add(amount));
				} else {
					refused += 1;
				}
			}
			Step::SetOwner(new) => {
				let new = m.who(*new);
				let r = call(&mut w, &from, &via, "asset", "set-contract-owner", &[Value::Principal(new.clone())]);
				if judge.accounts {
					ensure_eq!(r.is_ok(), is_owner, "{what}: {r:?}; success");
				}
				if r.is_ok() {
					m.owner = new;
					done += 1;
				} else {
					refused += 1;
				}
			}
			Step::SetKey(n, x) => {
				let key = vec![*x; *n as usize % 36];
				let r = call(&mut w, &from, &via, "asset", "set-bitcoin-wallet-public-key", &[Value::Buff(key.clone())]);
				if judge.accounts {
					ensure_eq!(r.is_ok(), is_owner && key.len() <= 33, "{what}: {r:?}; success");
				}
				if r.is_ok() {
					m.key = Some(key);
					done += 1;
				} else {
					refused += 1;
				}
			}
		}
		if judge.accounts {
			for i in 0..PRINCIPALS {
				let p = principal(i);
				ensure_eq!(
					get(&mut w, "get-balance", &[Value::Principal(p.clone())])?,
					Value::ok(Value::UInt(m.balance(&p))),
					"{what}: balance of {p:?} (before: {})", before.balance(&p)
				);
			}
			ensure_eq!(get(&mut w, "get-total-supply", &[])?, Value::ok(Value::UInt(m.supply())), "{what}: total supply");
			ensure_eq!(get(&mut w, "get-decimals", &[])?, Value::ok(Value::UInt(8)), "{what}: decimals");
			ensure_eq!(get(&mut w, "get-contract-owner", &[])?, Value::Principal(m.owner.clone()), "{what}: owner");
			ensure_eq!(
				get(&mut w, "get-bitcoin-wallet-public-key", &[])?,
				Value::Optional(m.key.clone().map(|k| Box::new(Value::Buff(k)))),
				"{what}: wallet key"
			);
		}
		if judge.proofs {
			for id in chain.iter().flat_map(|b| b.leaves.iter()).map(|l| rev(l)).chain(m.used.keys().cloned()) {
				ensure_eq!(
					get(&mut w, "get-amount-by-btc-txid", &[Value::Buff(id.clone())])?,
					Value::Optional(m.used.get(&id).map(|a| Box::new(Value::Int(*a)))),
					"{what}: what transaction {} was used for", hex::encode(&id)
				);
			}
		}
	}
	Ok(Outcome::new(done > 1 && refused > 0)
		.label_if(replays > 0, "replay refused")
		.label_if(retried > 0, "used after a refused attempt")
		.label_if(m.owner != deployer(), "owner changed")
		.label_if(c.debug, "debug contract"))
}

fn who(owner: u32) -> impl Strategy<Value = Who> + Clone {
	prop_oneof![owner => Just(Who::Owner), 2 => (0..PRINCIPALS).prop_map(Who::P)]
}

fn amount() -> impl Strategy<Value = Amount> + Clone {
	prop_oneof![
		8 => any::<u16>().prop_map(Amount::Small),
		3 => (-2i8..3).prop_map(Amount::Balance),
		1 => (-2i8..3).prop_map(Amount::Room),
		1 => any::<u8>().prop_map(Amount::Huge),
		1 => Just(Amount::Small(0)),
	]
}

fn tx(muts: u32) -> impl Strategy<Value = Tx> + Clone {
	(any::<u8>(), any::<u16>(), prop_oneof![
		10 => Just(vec![]),
		muts => vec(mutation(), 1..3),
	])
		.prop_map(|(block, at, muts)| Tx { block, at, muts })
}

fn histories(muts: u32, others: u32, len: usize) -> impl Strategy<Value = History> {
	let step = prop_oneof![
		6 => (amount(), who(1), tx(muts)).prop_map(|(a, w, t)| Step::Mint(a, w, t)),
		4 => (amount(), who(1), tx(muts)).prop_map(|(a, w, t)| Step::Burn(a, w, t)),
		others * 3 => (amount(), who(1), who(1), prop::option::of(any::<u8>())).prop_map(|(a, s, t, m)| Step::Transfer(a, s, t, m)),
		others => who(0).prop_map(Step::SetOwner),
		others => any::<(u8, u8)>().prop_map(|(n, x)| Step::SetKey(n, x)),
	];
	(
		any::<bool>(),
		blocks(2u16..=5, 1..4),
		prop::option::weighted(0.3, any::<(u16, u16)>()),
		vec((who(8), prop::option::weighted(0.25, who(3)), step), 1..len),
	)
		.prop_map(|(debug, blocks, copy, steps)| History { debug, blocks, copy, steps })
}

fn c29_check(c: &History) -> CheckResult {
	history(c, &Judge { accounts: true, proofs: false })
}
fn c30_check(c: &History) -> CheckResult {
	history(c, &Judge { accounts: false, proofs: true })
}

pub fn c29() -> Property {
	Property::new("C29", "at least two calls succeed and one is refused")
		.assume("Clarity is run by the interpreter in harness/clarity, which passes the contracts' own Clarity tests")
		.stage(Stage::new("histories", 40_000, 800_000, || histories(2, 3, 24), c29_check))
		.stage(Stage::new("long", 1_500, 30_000, || histories(1, 3, 200), c29_check))
}

fn inner_node() -> CheckResult {
	history(
		&History {
			debug: false,
			blocks: vec![BlockM { txs: 4, seed: 1 }],
			copy: None,
			steps: vec![(
				Who::Owner,
				None,
				Step::Mint(Amount::Small(5), Who::P(1), Tx { block: 0, at: 0, muts: vec![Mut::Inner(1)] }),
			)],
		},
		&Judge { accounts: false, proofs: true },
	)
}

pub fn c30() -> Property {
	Property::new("C30", "at least two calls succeed and one is refused")
		.assume("Clarity is run by the interpreter in harness/clarity, which passes the contracts' own Clarity tests")
		.stage(Stage::new("histories", 40_000, 800_000, || histories(8, 1, 24), c30_check))
		.stage(Stage::new("long", 1_500, 30_000, || histories(3, 1, 200), c30_check))
		.probe(Probe {
			sig: "inner-node",
			what: "an inner node of a block's Merkle tree is accepted as a Bitcoin transaction",
			run: inner_node,
		})
}
