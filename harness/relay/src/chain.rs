//! Simulated Bitcoin and Stacks chains and the nodes through which the relay sees them:
//! a Bitcoin node and an Electrum server on the loopback network, and a Stacks node.
use crate::{
	blocks::{block, coinbase, filler, header_bytes},
	contract::deploy,
	engine::{out, Op},
	proof::value,
};
use bdk::bitcoin::{
	consensus::encode::{deserialize, serialize},
	hashes::Hash,
	psbt::Prevouts,
	schnorr::SchnorrSig,
	secp256k1::{Message, PublicKey, Secp256k1, SecretKey, XOnlyPublicKey},
	util::sighash::SighashCache,
	Block, Network, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxOut, Txid,
	Witness,
};
use blockstack_lib::{
	chainstate::stacks::{StacksTransaction, TransactionPayload, TransactionPostConditionMode},
	codec::StacksMessageCodec,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};
use std::{
	collections::{BTreeMap, HashMap},
	io::{BufRead, BufReader, Read, Write},
	net::{TcpListener, TcpStream},
	sync::{
		atomic::{AtomicBool, Ordering},
		Arc, Mutex, MutexGuard,
	},
	time::Duration,
};
use vclarity::{
	hash::{sha256, sha256d},
	Called, Principal, Value, World,
};
use vcore::{
	gens::{magic, op_return, pk},
	ops::stacks_p2pkh,
	text::ref_address,
};

// ---------------------------------------------------------------- faults

pub const RPCS: [&str; 5] =
	["getblockhash", "getblock", "getrawtransaction", "getmempoolentry", "sendrawtransaction"];
pub const APIS: [&str; 8] =
	["contract", "by_height", "status", "raw", "nonces", "by_burn_block_height", "fees", "send"];

/// What goes wrong with a request.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Wrong {
	/// no reply, and nothing happens
	Refused,
	/// it happens, but the reply is lost
	Lost,
	/// the node is overloaded or its gateway fails
	Busy,
	Gateway,
	/// a block of that chain is mined just before
	Mined,
	/// it happens, a block of that chain is mined, and the reply is lost
	LostMined,
}

/// The nth request of that kind; kinds 0..5 are the Bitcoin node's, then the Stacks node's,
/// the last are requests of the wallet to Electrum.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Fault {
	pub kind: u8,
	pub nth: u8,
	pub wrong: Wrong,
}

/// The process ends while that request is under way, done or not.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Crash {
	pub kind: u8,
	pub nth: u8,
	pub done: bool,
}

/// Kinds of requests during which the process may end.
pub const NODE_KINDS: u8 = (RPCS.len() + APIS.len()) as u8;
pub const ELECTRUM: u8 = NODE_KINDS;
pub const KINDS: u8 = NODE_KINDS + 1;

// ---------------------------------------------------------------- the chains

pub struct Setup {
	pub net: Network,
	pub asset: String,
	/// the key behind the relay's wallet and its script
	pub key: SecretKey,
	pub wallet: Vec<u8>,
	pub stacks_key: SecretKey,
	pub bitcoin_height: u32,
	pub stacks_height: u32,
	pub coins: Vec<u64>,
	pub plan: Vec<Vec<Op>>,
	/// how many further blocks each transaction of the relay waits
	pub waits: Vec<u8>,
	pub fee_rate: u64,
	pub nonce: u64,
	pub faults: Vec<Fault>,
	/// the relay's log
	pub log: std::path::PathBuf,
	/// who may use the Bitcoin node, and how the address says it
	pub login: (&'static str, &'static str),
	pub plain: bool,
	pub api_key: Option<&'static str>,
	/// 1: the API knows transactions that wait only every other time it is asked,
	/// 2: the Bitcoin node counts the confirmations of those that wait
	pub quirks: u8,
}

/// As part of an address; delimiters may stand for themselves.
fn percent(s: &str, plain: bool) -> String {
	s.bytes()
		.map(|b| match b {
			b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => (b as char).to_string(),
			b'!' | b'$' | b'&' | b'\'' | b'(' | b')' | b'*' | b'+' | b',' | b';' | b'=' if plain => (b as char).to_string(),
			_ => format!("%{b:02X}"),
		})
		.collect()
}

fn base64(b: &[u8]) -> String {
	const C: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	b.chunks(3)
		.flat_map(|c| {
			let n = (0..3).fold(0u32, |n, i| n << 8 | u32::from(c.get(i).copied().unwrap_or(0)));
			(0..4).map(move |i| if i > c.len() { '=' } else { C[(n >> (18 - 6 * i) & 63) as usize] as char })
		})
		.collect()
}

pub struct Want {
	pub height: u32,
	pub amount: u64,
	pub principal: Vec<u8>,
	pub payee: Option<(Vec<u8>, u64)>,
	/// transactions the Stacks node accepted for it
	pub calls: Vec<[u8; 32]>,
	pub paid: Vec<Txid>,
}

pub struct Sent {
	pub raw: Vec<u8>,
	pub nonce: u64,
	pub function: String,
	pub args: Vec<Value>,
	wait: u8,
	/// what came of it
	pub result: Option<bool>,
	/// it moves tokens that its post conditions do not allow to move
	stopped: bool,
}

struct StacksBlock {
	burn: u32,
	txs: Vec<[u8; 32]>,
}

pub struct Chains {
	pub setup: Setup,
	me: Principal,
	bitcoin: Vec<Block>,
	planned: usize,
	mempool: Vec<(Txid, u8)>,
	txs: HashMap<Txid, Transaction>,
	/// height of confirmed transactions
	mined: HashMap<Txid, u32>,
	coins: HashMap<OutPoint, TxOut>,
	/// transactions that involve the wallet, oldest first
	history: Vec<Txid>,
	stacks: Vec<StacksBlock>,
	pending: Vec<[u8; 32]>,
	pub sent: HashMap<[u8; 32], Sent>,
	pub nonce: u64,
	pub world: World,
	pub balances: BTreeMap<Principal, u128>,
	pub wants: BTreeMap<Txid, Want>,
	pub keys_set: Vec<[u8; 32]>,
	counts: HashMap<u8, u8>,
	counter: u64,
	shy: bool,
	pub problems: Vec<String>,
	pub crash: Option<Crash>,
	pub crashed: bool,
	pub notify: Arc<tokio::sync::Notify>,
	pub hit: Vec<String>,
	pub sent_count: usize,
	pub payments: std::collections::BTreeSet<Txid>,
	/// length of the relay's log when it last sent something
	pub mark: u64,
}

enum Reply {
	Json(Json),
	Error(i32, String),
	/// too many requests at once
	Overloaded,
	Nothing,
}

fn id_of(block: u32) -> [u8; 32] {
	sha256(format!("Stacks block {block}").as_bytes())
}

impl Chains {
	pub fn new(setup: Setup) -> Self {
		let n = setup.net;
		let stacks_public = PublicKey::from_secret_key(&Secp256k1::new(), &setup.stacks_key);
		let (version, hash) = stacks_p2pkh(n, &stacks_public);
		let me = Principal::new(version, hash);
		let world = deploy(me.clone(), &setup.asset, false);
		let mut c = Self {
			me,
			bitcoin: vec![],
			planned: 0,
			mempool: vec![],
			txs: HashMap::new(),
			mined: HashMap::new(),
			coins: HashMap::new(),
			history: vec![],
			stacks: vec![],
			pending: vec![],
			sent: HashMap::new(),
			nonce: setup.nonce,
			world,
			balances: BTreeMap::new(),
			wants: BTreeMap::new(),
			keys_set: vec![],
			counts: HashMap::new(),
			counter: 0,
			shy: false,
			problems: vec![],
			crash: None,
			crashed: false,
			notify: Default::default(),
			hit: vec![],
			sent_count: 0,
			payments: Default::default(),
			mark: 0,
			setup,
		};
		let coins: Vec<Transaction> =
			c.setup.coins.clone().iter().enumerate().map(|(i, v)| c.funded(0xc0 + i as u64, vec![out(c.setup.wallet.clone(), *v)])).collect();
		c.add_block(coins);
		c.stacks.push(StacksBlock { burn: c.tip(), txs: vec![] });
		c
	}

	/// A transaction with those outputs, which spends a coin that exists.
	fn funded(&mut self, seed: u64, outputs: Vec<TxOut>) -> Transaction {
		let input = |previous_output, script_sig| TxIn {
			previous_output,
			script_sig,
			sequence: Sequence(0xffff_fffd),
			witness: Witness::new(),
		};
		let source = Transaction {
			version: 2,
			lock_time: PackedLockTime(0),
			input: vec![input(
				OutPoint { txid: Txid::from_inner(sha256d(&seed.to_le_bytes())), vout: 1 },
				Script::from(vec![1, 7]),
			)],
			output: vec![out(vec![0x51], outputs.iter().map(|o| o.value).sum::<u64>() + 1000)],
		};
		let spent = OutPoint { txid: source.txid(), vout: 0 };
		self.txs.insert(source.txid(), source);
		Transaction {
			version: 2,
			lock_time: PackedLockTime(0),
			input: vec![input(spent, Script::from(vec![1, 8]))],
			output: outputs,
		}
	}

	pub fn tip(&self) -> u32 {
		self.setup.bitcoin_height + self.bitcoin.len() as u32 - 1
	}
	fn stacks_tip(&self) -> u32 {
		self.setup.stacks_height + self.stacks.len() as u32 - 1
	}
	/// All planned blocks are there.
	pub fn planned(&self) -> bool {
		self.planned >= self.setup.plan.len()
	}
	pub fn idle(&self) -> bool {
		self.mempool.is_empty() && self.pending.is_empty()
	}
	pub fn lengths(&self) -> (usize, usize) {
		(self.bitcoin.len(), self.stacks.len())
	}
	pub fn bitcoin_block(&self, height: u32) -> Option<&Block> {
		self.bitcoin.get(height.checked_sub(self.setup.bitcoin_height)? as usize)
	}
	/// The transactions of the relay in a Stacks block.
	pub fn stacks_txs(&self, height: u32) -> Option<&[[u8; 32]]> {
		Some(&self.stacks.get(height.checked_sub(self.setup.stacks_height)? as usize)?.txs)
	}
	/// The payments of the relay.
	pub fn payment(&self, id: &Txid) -> Option<&Transaction> {
		self.payments.contains(id).then(|| &self.txs[id])
	}
	pub fn in_chain(&self, id: &Txid) -> bool {
		self.mined.contains_key(id)
	}

	/// The Bitcoin tip has a Stacks block.
	pub fn anchored(&self) -> bool {
		self.stacks.last().unwrap().burn == self.tip()
	}

	fn problem(&mut self, m: String) {
		self.problems.push(m);
	}

	/// What the log says so far has led to something.
	fn acted(&mut self) {
		self.mark = std::fs::metadata(&self.setup.log).map_or(0, |m| m.len());
	}

	fn wait(&mut self) -> u8 {
		self.counter += 1;
		let w = &self.setup.waits;
		if w.is_empty() {
			0
		} else {
			w[self.counter as usize % w.len()] % 4
		}
	}

	// ------------------------------------------------------------ mining

	fn add_block(&mut self, txs: Vec<Transaction>) {
		let height = self.setup.bitcoin_height + self.bitcoin.len() as u32;
		let prev = match self.bitcoin.last() {
			Some(b) => sha256d(&header_bytes(&b.header)),
			None => [5; 32],
		};
		let mut all = vec![coinbase(height, &[9], height % 2 == 0)];
		all.extend(txs);
		for t in &all {
			let id = t.txid();
			let mut mine = self.history.contains(&id);
			for (vout, o) in t.output.iter().enumerate() {
				if o.script_pubkey.as_bytes() == self.setup.wallet {
					// coins of the relay's own transactions exist since they were sent
					if !self.txs.contains_key(&id) {
						self.coins.insert(OutPoint { txid: id, vout: vout as u32 }, o.clone());
					}
					if !mine {
						self.history.push(id);
						mine = true;
					}
				}
			}
			self.txs.insert(id, t.clone());
			self.mined.insert(id, height);
		}
		let b = block(prev, 0x2000_0000, height.into(), all);
		let mut hash = sha256d(&header_bytes(&b.header));
		hash.reverse();
		self.world.burn_headers.insert(height.into(), hash);
		self.bitcoin.push(b);
	}

	pub fn mine_bitcoin(&mut self) {
		let n = self.setup.net;
		let height = self.tip() + 1;
		let mut txs = vec![];
		let mut rest = vec![];
		for (id, wait) in std::mem::take(&mut self.mempool) {
			let tx = &self.txs[&id];
			let ready = tx.input.iter().all(|i| !rest.iter().any(|(r, _)| *r == i.previous_output.txid));
			if wait == 0 && ready {
				txs.push(tx.clone());
			} else {
				rest.push((id, wait.saturating_sub(1)));
			}
		}
		self.mempool = rest;
		if let Some(ops) = self.setup.plan.get(self.planned).cloned() {
			let i = self.planned as u64;
			self.planned += 1;
			for (j, op) in ops.iter().enumerate() {
				let seed = 0x1_0000 + (i << 16) + j as u64;
				let plain = op.tx(n, &self.setup.wallet, seed);
				let tx = self.funded(seed, plain.output);
				let id = tx.txid();
				let want = |amount, principal, payee| Want { height, amount, principal, payee, calls: vec![], paid: vec![] };
				match op {
					Op::Deposit { to, amount, .. } => {
						self.wants.insert(id, want(*amount, to.wire(), None));
					}
					Op::Withdrawal { drawee, payee, amount, .. } => {
						let (version, hash) = stacks_p2pkh(n, &pk(drawee));
						let p = vcore::gens::Principal { version, hash, contract: None };
						self.wants.insert(id, want(*amount, p.wire(), Some((payee.script(), payee.dust()))));
					}
					Op::Other(_) => {}
				}
				txs.insert(j * 2 % (txs.len() + 1), tx);
			}
		}
		if height % 3 == 0 {
			txs.push(filler(height.into(), 2, 2, 1));
		}
		self.add_block(txs);
	}

	pub fn mine_stacks(&mut self) {
		let burn = self.tip();
		let mut txs = vec![];
		let mut rest = vec![];
		self.pending.sort_by_key(|id| self.sent[id].nonce);
		for id in std::mem::take(&mut self.pending) {
			let s = self.sent.get_mut(&id).unwrap();
			if s.wait == 0 && rest.is_empty() {
				txs.push(id);
			} else {
				s.wait = s.wait.saturating_sub(1);
				rest.push(id);
			}
		}
		self.pending = rest;
		for id in &txs {
			self.execute(id);
		}
		self.stacks.push(StacksBlock { burn, txs });
	}

	fn execute(&mut self, id: &[u8; 32]) {
		let (f, args) = {
			let s = &self.sent[id];
			(s.function.clone(), s.args.clone())
		};
		if self.sent[id].stopped {
			if let (Some(Value::UInt(amount)), Some(Value::Principal(p))) = (args.first(), args.get(1)) {
				if *amount > 0 && self.balances.get(p).is_some_and(|b| b >= amount) {
					self.problem(format!("{f}{args:?} is undone by its post conditions"));
					self.sent.get_mut(id).unwrap().result = Some(false);
					return;
				}
			}
		}
		let me = self.me.clone();
		let asset = self.setup.asset.clone();
		let r = self.world.call(&me, &me, &asset, &f, &args).unwrap_or_else(|m| {
			eprintln!("the Clarity interpreter does not support this contract: {m}");
			std::process::exit(3)
		});
		let ok = r.is_ok();
		if let (true, Called::Value(Value::Response(_, v))) = (ok, &r) {
			if **v != Value::Bool(true) {
				self.problem(format!("{f} returned {r:?}"));
			}
		}
		// the model
		let want = match (args.first(), args.get(1)) {
			(Some(Value::UInt(amount)), Some(Value::Principal(p))) => {
				let b = self.balances.entry(p.clone()).or_default();
				match f.as_str() {
					"mint" if *amount > 0 => {
						*b += amount;
						true
					}
					"burn" if *amount > 0 && *b >= *amount => {
						*b -= amount;
						true
					}
					_ => false,
				}
			}
			_ => true,
		};
		if ok != want {
			self.problem(format!("{f}{args:?} ended with {r:?}, although it should {}", if want { "succeed" } else { "fail" }));
		}
		self.sent.get_mut(id).unwrap().result = Some(ok);
	}

	// ------------------------------------------------------------ requests

	/// What goes wrong with this request, if anything.
	fn meet(&mut self, kind: u8) -> Option<Wrong> {
		let n = self.counts.entry(kind).or_default();
		let nth = *n;
		*n = n.saturating_add(1);
		let f = self.setup.faults.iter().find(|f| f.kind % KINDS == kind && f.nth == nth)?.wrong;
		self.hit.push(format!("fault-{f:?}"));
		Some(f)
	}

	/// Whether the process ends at this request, and whether it is still done.
	fn dies(&mut self, kind: u8) -> Option<bool> {
		if self.crashed {
			return Some(false);
		}
		match &mut self.crash {
			Some(c) if c.kind % KINDS == kind => {
				if c.nth > 0 {
					c.nth -= 1;
					return None;
				}
				let done = c.done;
				self.crash = None;
				self.crashed = true;
				self.hit.push("crash-at-request".into());
				self.notify.notify_one();
				Some(done)
			}
			_ => None,
		}
	}

	pub fn kill(&mut self) {
		self.crashed = true;
		self.crash = None;
	}

	fn rpc(&mut self, method: &str, p: &Json) -> Reply {
		let kind = RPCS.iter().position(|m| *m == method).map(|k| k as u8);
		if let Some(done) = kind.and_then(|k| self.dies(k)) {
			if done {
				self.bitcoind(method, p);
			}
			return Reply::Nothing;
		}
		match kind.and_then(|k| self.meet(k)) {
			Some(Wrong::Lost) => {
				self.bitcoind(method, p);
				Reply::Nothing
			}
			Some(Wrong::LostMined) => {
				self.bitcoind(method, p);
				if self.anchored() {
					self.mine_bitcoin();
				}
				Reply::Nothing
			}
			Some(Wrong::Mined) => {
				if self.anchored() {
					self.mine_bitcoin();
				}
				self.bitcoind(method, p)
			}
			Some(Wrong::Busy) => Reply::Overloaded,
			// it was started again
			Some(Wrong::Gateway) => Reply::Error(-28, "Loading block index...".into()),
			Some(Wrong::Refused) => Reply::Nothing,
			None => self.bitcoind(method, p),
		}
	}

	fn bitcoind(&mut self, method: &str, p: &Json) -> Reply {
		let tx_at = |i: usize| p[i].as_str().and_then(|s| s.parse::<Txid>().ok());
		match method {
			"getblockhash" => match p[0].as_u64().map(|h| h as u32) {
				Some(h) if h >= self.setup.bitcoin_height && h <= self.tip() => {
					let b = &self.bitcoin[(h - self.setup.bitcoin_height) as usize];
					Reply::Json(json!(b.block_hash().to_string()))
				}
				_ => Reply::Error(-8, "Block height out of range".into()),
			},
			"getblockcount" => Reply::Json(json!(self.tip())),
			"getbestblockhash" => Reply::Json(json!(self.bitcoin.last().unwrap().block_hash().to_string())),
			"getblock" => match self.bitcoin.iter().find(|b| Some(b.block_hash().to_string().as_str()) == p[0].as_str()) {
				Some(b) if p[1].as_u64() == Some(0) => Reply::Json(json!(hex::encode(serialize(b)))),
				Some(_) => Reply::Error(-32603, "this node knows raw blocks only".into()),
				None => Reply::Error(-5, "Block not found".into()),
			},
			"getrawtransaction" => {
				let Some(id) = tx_at(0) else { return Reply::Error(-8, "txid must be of length 64".into()) };
				let known = self.mined.contains_key(&id) || self.mempool.iter().any(|m| m.0 == id);
				if !known {
					return Reply::Error(-5, "No such mempool or blockchain transaction. Use gettransaction for wallet transactions.".into());
				}
				let t = &self.txs[&id];
				let mut v = json!({
					"hex": hex::encode(serialize(t)), "txid": id.to_string(), "hash": t.wtxid().to_string(),
					"size": t.size(), "vsize": t.vsize(), "weight": t.weight(), "version": t.version,
					"locktime": t.lock_time.0, "vin": [], "vout": [],
				});
				if !p[1].as_bool().unwrap_or(p[1].as_u64() == Some(1)) {
					return Reply::Json(v["hex"].take());
				}
				if let Some(h) = self.mined.get(&id) {
					let b = &self.bitcoin[(h - self.setup.bitcoin_height) as usize];
					v["blockhash"] = json!(b.block_hash().to_string());
					v["confirmations"] = json!(self.tip() - h + 1);
					v["time"] = json!(b.header.time);
					v["blocktime"] = json!(b.header.time);
				} else if self.setup.quirks & 2 != 0 {
					v["confirmations"] = json!(0);
				}
				Reply::Json(v)
			}
			"getmempoolentry" => match tx_at(0).filter(|id| self.mempool.iter().any(|m| m.0 == *id)) {
				Some(id) => {
					let t = &self.txs[&id];
					Reply::Json(json!({
						"vsize": t.vsize(), "weight": t.weight(), "time": 1_700_000_000, "height": self.tip(),
						"descendantcount": 1, "descendantsize": t.vsize(), "ancestorcount": 1, "ancestorsize": t.vsize(),
						"wtxid": t.wtxid().to_string(),
						"fees": {"base": 0.00001, "modified": 0.00001, "ancestor": 0.00001, "descendant": 0.00001},
						"depends": [], "spentby": [], "bip125-replaceable": true, "unbroadcast": false,
					}))
				}
				None => Reply::Error(-5, "Transaction not in mempool".into()),
			},
			"sendrawtransaction" => {
				let bytes = p[0].as_str().and_then(|s| hex::decode(s).ok());
				match bytes.and_then(|b| deserialize::<Transaction>(&b).ok()) {
					Some(t) => match self.receive(t) {
						Ok(id) => Reply::Json(json!(id.to_string())),
						Err((c, m)) => Reply::Error(c, m.into()),
					},
					None => Reply::Error(-22, "TX decode failed".into()),
				}
			}
			m => Reply::Error(-32601, format!("Method not found: {m}")),
		}
	}

	/// A Bitcoin transaction arrives.
	fn receive(&mut self, t: Transaction) -> Result<Txid, (i32, &'static str)> {
		let id = t.txid();
		if self.mined.contains_key(&id) {
			return Err((-27, "Transaction already in block chain"));
		}
		if self.mempool.iter().any(|m| m.0 == id) {
			return Ok(id);
		}
		let mut spent = vec![];
		for i in &t.input {
			match self.coins.get(&i.previous_output) {
				Some(c) => spent.push(c.clone()),
				None => return Err((-25, "bad-txns-inputs-missingorspent")),
			}
		}
		if let Err(m) = spends(&t, &spent) {
			self.problem(format!("payment {id}: {m}"));
			return Err((-26, "mandatory-script-verify-flag-failed"));
		}
		let total: u64 = spent.iter().map(|c| c.value).sum();
		let paid: u64 = t.output.iter().map(|o| o.value).sum();
		if paid > total {
			self.problem(format!("payment {id} pays {paid} of {total}"));
			return Err((-25, "bad-txns-in-belowout"));
		}
		if total - paid > 100_000 {
			self.problem(format!("payment {id} leaves a fee of {}", total - paid));
		}
		self.pays(&t, id);
		for i in &t.input {
			self.coins.remove(&i.previous_output);
		}
		for (vout, o) in t.output.iter().enumerate() {
			if o.script_pubkey.as_bytes() == self.setup.wallet {
				self.coins.insert(OutPoint { txid: id, vout: vout as u32 }, o.clone());
			}
		}
		self.history.push(id);
		self.txs.insert(id, t);
		let w = self.wait();
		self.mempool.push((id, w));
		self.payments.insert(id);
		self.acted();
		Ok(id)
	}

	/// Which request the payment settles.
	fn pays(&mut self, t: &Transaction, id: Txid) {
		let bytes = |i: usize| t.output.get(i).map(|o| (o.script_pubkey.to_bytes(), o.value));
		let Some((to, amount)) = bytes(1) else { return self.problem(format!("payment {id} has no payee")) };
		for o in t.output.iter().skip(2) {
			if o.script_pubkey.as_bytes() != self.setup.wallet {
				self.problem(format!("payment {id} also pays {}", o.script_pubkey));
			}
		}
		let open: Vec<Txid> = self
			.wants
			.iter()
			.filter(|(_, w)| {
				w.payee.as_ref().is_some_and(|p| p.0 == to)
					&& w.amount == amount
					&& w.paid.is_empty()
					&& w.calls.iter().any(|c| self.sent[c].result == Some(true))
			})
			.map(|w| *w.0)
			.collect();
		if open.is_empty() {
			return self.problem(format!("payment {id} of {amount} to {} settles no burnt request", hex::encode(to)));
		}
		// requests of heights with Stacks blocks first, as any of them may be named for the others
		for certain in [true, false] {
			for o in &open {
				let height = self.wants[o].height;
				if self.stacks.iter().any(|b| b.burn == height) == certain
					&& self.marks(height).into_iter().any(|m| bytes(0) == Some((m, 0)))
				{
					self.wants.get_mut(o).unwrap().paid.push(id);
					return;
				}
			}
		}
		self.problem(format!("payment {id} does not name the Stacks block of its request's height: {:?}", bytes(0).map(|b| hex::encode(b.0))));
	}

	/// The data output of a fulfillment of a request at that height.
	fn marks(&self, height: u32) -> Vec<Vec<u8>> {
		let mark = |i: u32| {
			let mut d = magic(self.setup.net).to_vec();
			d.push(b'!');
			d.extend(id_of(self.setup.stacks_height + i));
			op_return(&d)
		};
		let all: Vec<u32> = (0..self.stacks.len() as u32).collect();
		let at: Vec<u32> = all.iter().copied().filter(|i| self.stacks[*i as usize].burn == height).collect();
		// without such a block any nearby one may be named
		if at.is_empty() { all } else { at }.into_iter().map(mark).collect()
	}

	fn api(&mut self, request: &reqwest::Request) -> reqwest::Answer {
		if request.header("x-hiro-api-key") != self.setup.api_key {
			self.problem(format!(
				"the Stacks API gets the key {:?}, not {:?}",
				request.header("x-hiro-api-key"),
				self.setup.api_key
			));
		}
		let path = request.url().path().to_string();
		let part: Vec<&str> = path.trim_matches('/').split('/').collect();
		let kind = match part.as_slice() {
			["extended", "v1", "contract", _] => 0,
			["extended", "v1", "block", "by_height", _] => 1,
			["extended", "v1", "tx", _] => 2,
			["extended", "v1", "tx", _, "raw"] => 3,
			["extended", "v1", "address", _, "nonces"] => 4,
			["extended", "v1", "block", "by_burn_block_height", _] => 5,
			["v2", "fees", "transfer"] => 6,
			["v2", "transactions"] => 7,
			_ => 8,
		};
		let k = kind + RPCS.len() as u8;
		if let Some(done) = self.dies(k) {
			if done {
				self.stacks_node(kind, &part, request);
			}
			return None;
		}
		match self.meet(k) {
			Some(Wrong::Refused) => None,
			Some(Wrong::Lost) => {
				self.stacks_node(kind, &part, request);
				None
			}
			Some(Wrong::Busy) => Some((429, b"Too many requests".to_vec())),
			Some(Wrong::Gateway) => {
				let status = [522, 502, 503, 504, 500][self.hit.len() % 5];
				Some((status, b"<html>".to_vec()))
			}
			Some(Wrong::LostMined) => {
				self.stacks_node(kind, &part, request);
				self.mine_stacks();
				None
			}
			Some(Wrong::Mined) => {
				self.mine_stacks();
				Some(self.stacks_node(kind, &part, request))
			}
			None => Some(self.stacks_node(kind, &part, request)),
		}
	}

	fn stacks_node(&mut self, kind: u8, part: &[&str], request: &reqwest::Request) -> (u16, Vec<u8>) {
		let ok = |v: Json| (200, v.to_string().into_bytes());
		let no = |m: &str| (404, json!({ "error": m }).to_string().into_bytes());
		let hash = |s: &str| -> Option<[u8; 32]> { hex::decode(s.trim_start_matches("0x")).ok()?.try_into().ok() };
		let me = part.get(3).copied().unwrap_or("");
		let contract = format!("{}.{}", self.address(), self.setup.asset);
		match kind {
			0 if me == contract => ok(json!({
				"tx_id": format!("0x{}", hex::encode([3; 32])), "canonical": true, "contract_id": contract,
				"block_height": self.setup.stacks_height,
			})),
			0 => no("cannot find contract by ID"),
			1 => {
				let h = part[4].parse::<u32>().ok().filter(|h| (self.setup.stacks_height..=self.stacks_tip()).contains(h));
				match h {
					Some(h) => ok(self.stacks_block(h)),
					None => no("cannot find block by height"),
				}
			}
			5 => {
				let h = part[4].parse::<u32>().ok();
				match self.stacks.iter().position(|b| Some(b.burn) == h) {
					Some(i) => ok(self.stacks_block(self.setup.stacks_height + i as u32)),
					None => no("cannot find block by burn height"),
				}
			}
			2 => match hash(me).and_then(|h| self.sent.get(&h).map(|s| (h, s))) {
				Some((h, s)) if s.result.is_none() && self.setup.quirks & 1 != 0 && {
					self.shy = !self.shy;
					self.shy
				} => no(&format!("could not find transaction by ID {}", hex::encode(h))),
				Some((h, s)) => ok(json!({
					"tx_id": format!("0x{}", hex::encode(h)), "nonce": s.nonce, "canonical": true,
					"tx_status": match s.result {
						None => "pending",
						Some(true) => "success",
						Some(false) if s.stopped => "abort_by_post_condition",
						Some(false) => "abort_by_response",
					},
				})),
				None => no("could not find transaction by ID"),
			},
			3 => match hash(me).and_then(|h| self.sent.get(&h)) {
				Some(s) => ok(json!({ "raw_tx": format!("0x{}", hex::encode(&s.raw)) })),
				None => no("could not find transaction by ID"),
			},
			4 if me == self.address() => {
				let mined = self.nonce - self.pending.len() as u64;
				let last = |n: u64, some: bool| if some { json!(n - 1) } else { Json::Null };
				ok(json!({
					"last_executed_tx_nonce": last(mined, mined > 0),
					"last_mempool_tx_nonce": last(self.nonce, !self.pending.is_empty()),
					"possible_next_nonce": self.nonce, "detected_missing_nonces": [],
				}))
			}
			// somebody else has not sent anything
			4 => ok(json!({"last_executed_tx_nonce": null, "last_mempool_tx_nonce": null,
				"possible_next_nonce": 0, "detected_missing_nonces": []})),
			6 => ok(json!(self.setup.fee_rate)),
			7 => {
				let body = request.body().and_then(|b| b.as_bytes()).unwrap_or_default().to_vec();
				match self.take(body) {
					Ok(id) => ok(json!(hex::encode(id))),
					Err(m) => (400, json!({"error": "transaction rejected", "reason": m}).to_string().into_bytes()),
				}
			}
			_ => no("not found"),
		}
	}

	fn stacks_block(&self, h: u32) -> Json {
		let b = &self.stacks[(h - self.setup.stacks_height) as usize];
		json!({
			"canonical": true, "height": h, "hash": format!("0x{}", hex::encode(id_of(h))),
			"burn_block_height": b.burn,
			"txs": b.txs.iter().map(|t| format!("0x{}", hex::encode(t))).collect::<Vec<_>>(),
		})
	}

	fn address(&self) -> String {
		ref_address(self.me.version, &self.me.hash)
	}

	/// A Stacks transaction arrives.
	fn take(&mut self, raw: Vec<u8>) -> Result<[u8; 32], String> {
		let mut rest = &raw[..];
		let t = match StacksTransaction::consensus_deserialize(&mut rest) {
			Ok(t) if rest.is_empty() => t,
			_ => {
				self.problem(format!("the Stacks node got something else than a transaction: {}", hex::encode(&raw)));
				return Err("Deserialization".into());
			}
		};
		let id = t.txid().0;
		let name = hex::encode(id);
		if self.sent.contains_key(&id) {
			return Ok(id);
		}
		if let Err(e) = t.verify_origin() {
			self.problem(format!("Stacks transaction {name}: {e:?}"));
			return Err("SignatureValidation".into());
		}
		let main = self.setup.net == Network::Bitcoin;
		let chain = if main { 1 } else { 0x8000_0000 };
		if t.chain_id != chain || t.is_mainnet() != main {
			self.problem(format!("Stacks transaction {name} is for another chain ({:#x})", t.chain_id));
			return Err("BadTransactionVersion".into());
		}
		let from = t.origin_address();
		if (from.version, from.bytes.0) != (self.me.version, self.me.hash) {
			self.problem(format!("Stacks transaction {name} is from {from}"));
			return Err("NoSuchPublicKey".into());
		}
		let nonce = t.get_origin_nonce();
		if nonce != self.nonce {
			self.problem(format!("Stacks transaction {name} has nonce {nonce}, not {}", self.nonce));
			return Err(if nonce < self.nonce { "ConflictingNonceInMempool" } else { "BadNonce" }.into());
		}
		if t.get_tx_fee() == 0 {
			self.problem(format!("Stacks transaction {name} pays no fee"));
			return Err("FeeTooLow".into());
		}
		let TransactionPayload::ContractCall(c) = &t.payload else {
			self.problem(format!("Stacks transaction {name} is no contract call"));
			return Err("BadFunction".into());
		};
		let (function, contract) = (c.function_name.to_string(), c.contract_name.to_string());
		let args: Vec<Value> = c.function_args.iter().map(value).collect();
		if (c.address.version, c.address.bytes.0) != (self.me.version, self.me.hash) || contract != self.setup.asset {
			self.problem(format!("Stacks transaction {name} calls {}.{contract}", c.address));
			return Err("NoSuchContract".into());
		}
		if let Err(m) = self.judge(&function, &args, id) {
			self.problem(format!("call of {function}{args:?}: {m}"));
		}
		let stopped =
			function == "burn" && t.post_condition_mode == TransactionPostConditionMode::Deny && t.post_conditions.is_empty();
		let wait = self.wait();
		self.sent.insert(id, Sent { raw, nonce, function, args, wait, result: None, stopped });
		self.pending.push(id);
		self.nonce += 1;
		self.sent_count += 1;
		self.acted();
		Ok(id)
	}

	/// Whether the relay may call that.
	fn judge(&mut self, function: &str, args: &[Value], id: [u8; 32]) -> Result<(), String> {
		match (function, args) {
			("set-bitcoin-wallet-public-key", [key]) => {
				self.keys_set.push(id);
				let want = PublicKey::from_secret_key(&Secp256k1::new(), &self.setup.key).serialize();
				if *key != Value::buff(want.to_vec()) {
					return Err("this is not the key of its wallet".into());
				}
				Ok(())
			}
			("mint" | "burn", [Value::UInt(amount), Value::Principal(who), Value::Buff(txid), Value::UInt(height), ..]) => {
				let mut txid: [u8; 32] = txid.as_slice().try_into().map_err(|_| "no transaction id")?;
				txid.reverse();
				let w = self.wants.get_mut(&Txid::from_inner(txid)).ok_or("there is no such request")?;
				if w.payee.is_some() != (function == "burn") {
					return Err("the request asks for something else".into());
				}
				w.calls.push(id);
				if w.calls.len() > 1 {
					return Err("this was sent before".into());
				}
				if *amount != u128::from(w.amount) {
					return Err(format!("the amount is {}", w.amount));
				}
				if u128::from(w.height) != *height {
					return Err(format!("the height is {}", w.height));
				}
				let mut got = vec![];
				Value::Principal(who.clone()).serialize(&mut got);
				if got != w.principal {
					return Err("this is somebody else".into());
				}
				Ok(())
			}
			_ => Err("the relay has no business with that".into()),
		}
	}

	// ------------------------------------------------------------ Electrum

	fn electrum(&mut self, method: &str, p: &Json) -> Result<Json, String> {
		let sync = ["blockchain.scripthash.get_history", "blockchain.transaction.get", "blockchain.block.header"];
		if sync.contains(&method) {
			// a lost connection is the client library's own affair
			let wrong = self.meet(ELECTRUM);
			if matches!(wrong, Some(Wrong::Mined | Wrong::LostMined)) {
				self.mine_bitcoin();
			}
			if !matches!(wrong, None | Some(Wrong::Mined)) {
				return Err("excessive resource usage".into());
			}
		}
		let header = |height: u32| {
			let mut h = vec![0u8; 80];
			h[0] = 4;
			h[4..8].copy_from_slice(&height.to_le_bytes());
			h[68..72].copy_from_slice(&(1_600_000_000 + height).to_le_bytes());
			match height.checked_sub(self.setup.bitcoin_height).and_then(|i| self.bitcoin.get(i as usize)) {
				Some(b) => hex::encode(header_bytes(&b.header)),
				None => hex::encode(h),
			}
		};
		Ok(match method {
			"server.version" => json!(["simulated", "1.4"]),
			"server.ping" => Json::Null,
			"server.features" => json!({"genesis_hash": "00".repeat(32), "hash_function": "sha256",
				"pruning": null, "server_version": "simulated", "protocol_min": "1.4", "protocol_max": "1.4", "hosts": {}}),
			"blockchain.headers.subscribe" => json!({"height": self.tip(), "hex": header(self.tip())}),
			"blockchain.block.header" => {
				let h = p[0].as_u64().ok_or("bad height")? as u32;
				if h > self.tip() {
					return Err(format!("height {h} out of range"));
				}
				json!(header(h))
			}
			"blockchain.estimatefee" | "blockchain.relayfee" => json!(0.00001),
			"blockchain.scripthash.get_history" => {
				let mut h = bdk::bitcoin::hashes::sha256::Hash::hash(&self.setup.wallet).into_inner();
				h.reverse();
				let mine = p[0].as_str() == Some(&hex::encode(h));
				let mut all: Vec<(u32, Json)> = self
					.history
					.iter()
					.filter(|_| mine)
					.map(|t| {
						let h = self.mined.get(t).copied();
						(h.unwrap_or(u32::MAX), json!({"tx_hash": t.to_string(), "height": h.unwrap_or(0)}))
					})
					.collect();
				all.sort_by_key(|a| a.0);
				json!(all.into_iter().map(|a| a.1).collect::<Vec<_>>())
			}
			"blockchain.scripthash.subscribe" => Json::Null,
			"blockchain.transaction.get" => {
				let id: Txid = p[0].as_str().and_then(|s| s.parse().ok()).ok_or("bad txid")?;
				json!(hex::encode(serialize(self.txs.get(&id).ok_or("no such transaction")?)))
			}
			"blockchain.transaction.broadcast" => {
				let bytes = p[0].as_str().and_then(|s| hex::decode(s).ok()).ok_or("bad transaction")?;
				let t: Transaction = deserialize(&bytes).map_err(|e| e.to_string())?;
				json!(self.receive(t).map_err(|e| e.1.to_string())?.to_string())
			}
			m => return Err(format!("unknown method {m}")),
		})
	}
}

/// Every input is a coin spent by its key.
fn spends(t: &Transaction, coins: &[TxOut]) -> Result<(), String> {
	let secp = Secp256k1::verification_only();
	let mut cache = SighashCache::new(t);
	for (i, coin) in coins.iter().enumerate() {
		let s = coin.script_pubkey.as_bytes();
		if s.len() != 34 || s[..2] != [0x51, 0x20] {
			return Err(format!("input {i} is not a Taproot coin"));
		}
		let key = XOnlyPublicKey::from_slice(&s[2..]).map_err(|e| e.to_string())?;
		let w = t.input[i].witness.to_vec();
		let [sig] = w.as_slice() else { return Err(format!("input {i} has {} witness items", w.len())) };
		let sig = SchnorrSig::from_slice(sig).map_err(|e| format!("input {i}: {e}"))?;
		let hash = cache
			.taproot_key_spend_signature_hash(i, &Prevouts::All(coins), sig.hash_ty)
			.map_err(|e| e.to_string())?;
		secp.verify_schnorr(&sig.sig, &Message::from_slice(&hash).unwrap(), &key)
			.map_err(|_| format!("input {i} is not signed by the wallet's key"))?;
	}
	Ok(())
}

// ---------------------------------------------------------------- servers

pub struct Nodes {
	pub chains: Arc<Mutex<Chains>>,
	pub bitcoin_url: String,
	pub electrum_url: String,
	pub stacks_url: String,
	host: String,
	stop: Arc<AtomicBool>,
	/// the process that was killed is gone
	pub gone: Arc<AtomicBool>,
	addrs: Vec<std::net::SocketAddr>,
	threads: Vec<std::thread::JoinHandle<()>>,
}

pub fn lock(c: &Mutex<Chains>) -> MutexGuard<'_, Chains> {
	c.lock().unwrap_or_else(|e| e.into_inner())
}

fn listen() -> (TcpListener, std::net::SocketAddr) {
	let l = TcpListener::bind("127.0.0.1:0").unwrap_or_else(|e| {
		eprintln!("cannot listen on the loopback network: {e}");
		std::process::exit(3)
	});
	let a = l.local_addr().unwrap();
	(l, a)
}

impl Nodes {
	pub fn start(chains: Chains) -> Self {
		static COUNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
		let host = format!("stacks-{}.invalid", COUNT.fetch_add(1, Ordering::SeqCst));
		let login = {
			let (user, password) = chains.setup.login;
			let plain = chains.setup.plain;
			format!("{}:{}", percent(user, plain), percent(password, plain))
		};
		let chains = Arc::new(Mutex::new(chains));
		let stop = Arc::new(AtomicBool::new(false));
		let gone = Arc::new(AtomicBool::new(false));
		let (rpc, rpc_addr) = listen();
		let (electrum, electrum_addr) = listen();
		let mut threads = vec![];
		{
			let (chains, stop, gone) = (chains.clone(), stop.clone(), gone.clone());
			threads.push(std::thread::spawn(move || {
				for c in rpc.incoming() {
					if stop.load(Ordering::SeqCst) {
						break;
					}
					if let Ok(c) = c {
						let _ = serve_rpc(&chains, &gone, &stop, c);
					}
				}
			}));
		}
		{
			let (chains, stop) = (chains.clone(), stop.clone());
			threads.push(std::thread::spawn(move || {
				for c in electrum.incoming() {
					if stop.load(Ordering::SeqCst) {
						break;
					}
					if let Ok(c) = c {
						let chains = chains.clone();
						std::thread::spawn(move || serve_electrum(&chains, c));
					}
				}
			}));
		}
		{
			let chains = chains.clone();
			reqwest::register(&host, move |r| lock(&chains).api(r));
		}
		Self {
			chains,
			bitcoin_url: format!("http://{login}@{rpc_addr}"),
			electrum_url: format!("tcp://{electrum_addr}"),
			stacks_url: format!("http://{host}"),
			host,
			stop,
			gone,
			addrs: vec![rpc_addr, electrum_addr],
			threads,
		}
	}
}

impl Drop for Nodes {
	fn drop(&mut self) {
		reqwest::unregister(&self.host);
		self.stop.store(true, Ordering::SeqCst);
		for a in &self.addrs {
			let _ = TcpStream::connect(a);
		}
		for t in self.threads.drain(..) {
			let _ = t.join();
		}
	}
}

fn serve_rpc(chains: &Mutex<Chains>, gone: &AtomicBool, stop: &AtomicBool, c: TcpStream) -> std::io::Result<()> {
	c.set_nodelay(true)?;
	c.set_read_timeout(Some(Duration::from_secs(10)))?;
	let mut out = c.try_clone()?;
	let mut r = BufReader::new(c);
	let mut length = 0;
	let mut login = None;
	loop {
		let mut line = String::new();
		if r.read_line(&mut line)? == 0 {
			return Ok(());
		}
		if line.len() > 14 && line[..14].eq_ignore_ascii_case("authorization:") {
			login = Some(line[14..].trim().to_string());
		}
		let line = line.trim().to_ascii_lowercase();
		if let Some(n) = line.strip_prefix("content-length:") {
			length = n.trim().parse().unwrap_or(0);
		}
		if line.is_empty() {
			break;
		}
	}
	let mut body = vec![0; length];
	r.read_exact(&mut body)?;
	let req: Json = serde_json::from_slice(&body).unwrap_or(Json::Null);
	let (reply, crashed) = {
		let mut c = lock(chains);
		let (user, password) = c.setup.login;
		if login != Some(format!("Basic {}", base64(format!("{user}:{password}").as_bytes()))) {
			c.problem(format!("the Bitcoin node gets the login {login:?} instead of {user}:{password}"));
		}
		let reply = c.rpc(req["method"].as_str().unwrap_or(""), &req["params"]);
		(reply, c.crashed)
	};
	if crashed {
		while !gone.load(Ordering::SeqCst) && !stop.load(Ordering::SeqCst) {
			std::thread::sleep(Duration::from_millis(1));
		}
	}
	let (status, v) = match reply {
		Reply::Json(v) => ("200 OK", json!({"result": v, "error": null, "id": req["id"]})),
		Reply::Error(code, m) => {
			("500 Internal Server Error", json!({"result": null, "error": {"code": code, "message": m}, "id": req["id"]}))
		}
		Reply::Overloaded => {
			let body = "Work queue depth exceeded";
			return write!(out, "HTTP/1.1 503 Service Unavailable\r\nContent-Length: {}\r\n\r\n{body}", body.len());
		}
		// a reply that is none
		Reply::Nothing => return out.write_all(b"\r\n"),
	};
	let body = v.to_string();
	out.write_all(
		format!("HTTP/1.1 {status}\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{body}\n", body.len() + 1).as_bytes(),
	)
}

fn serve_electrum(chains: &Mutex<Chains>, c: TcpStream) {
	let _ = c.set_nodelay(true);
	let Ok(mut out) = c.try_clone() else { return };
	for line in BufReader::new(c).lines() {
		let Ok(line) = line else { return };
		let Ok(req) = serde_json::from_str::<Json>(&line) else { return };
		let one = |req: &Json| match lock(chains).electrum(req["method"].as_str().unwrap_or(""), &req["params"]) {
			Ok(v) => json!({"jsonrpc": "2.0", "id": req["id"], "result": v}),
			Err(e) => json!({"jsonrpc": "2.0", "id": req["id"], "error": {"code": 1, "message": e}}),
		};
		let reply = match req.as_array() {
			Some(a) => json!(a.iter().map(one).collect::<Vec<_>>()),
			None => one(&req),
		};
		if out.write_all(format!("{reply}\n").as_bytes()).is_err() {
			return;
		}
	}
}
