//! A fake Electrum server on the loopback network.
use std::{
	collections::HashMap,
	io::{BufRead, BufReader, Write},
	net::{TcpListener, TcpStream},
	sync::{
		atomic::{AtomicBool, AtomicU64, Ordering},
		Arc, Mutex,
	},
};

use bdk::bitcoin::{
	consensus::encode::serialize,
	hashes::{sha256, Hash},
	OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxOut, Txid, Witness,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vcore::gens::*;
use vkit::proptest;

/// A transaction that pays the wallet.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Funding {
	/// a coinbase (first transaction only), or a spend of somebody else's coin
	pub coinbase: bool,
	/// blocks on top of it; none: not confirmed
	pub depth: Option<u32>,
	/// values and whether the wallet owns the output
	pub outs: Vec<(u64, bool)>,
}

/// The history of one P2WPKH address.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
	pub key: [u8; 32],
	pub funding: Vec<Funding>,
	/// coins that were spent again: index, share paid back to the wallet
	pub spends: Vec<(u16, u16)>,
}

pub const TIP: u32 = 1000;

#[derive(Default)]
pub struct Ledger {
	pub txs: HashMap<Txid, Transaction>,
	/// the wallet's history, oldest first
	pub history: Vec<(Txid, u32)>,
	/// everything a consensus-valid transaction may spend
	pub coins: HashMap<OutPoint, TxOut>,
	/// total of those that are confirmed
	pub confirmed: u64,
	pub total: u64,
	pub spent: usize,
	pub immature: usize,
}

impl History {
	pub fn script(&self) -> Script {
		Script::from(Addr::P2wpkh(vcore::keys::h160(&pk(&self.key).serialize())).script())
	}
	pub fn ledger(&self) -> Ledger {
		let script = self.script();
		let foreign = Script::from(Addr::P2wpkh([0x77; 20]).script());
		let input = |prev: OutPoint, sig: Vec<u8>| TxIn {
			previous_output: prev,
			script_sig: Script::from(sig),
			sequence: Sequence::MAX,
			witness: Witness::new(),
		};
		let tx = |input: TxIn, output: Vec<TxOut>| Transaction {
			version: 2,
			lock_time: PackedLockTime(0),
			input: vec![input],
			output,
		};
		let mut l = Ledger::default();
		let mut conf: HashMap<OutPoint, bool> = HashMap::new();
		let mut order: Vec<OutPoint> = vec![];
		for (i, f) in self.funding.iter().enumerate() {
			let outs: Vec<TxOut> = f
				.outs
				.iter()
				.map(|(v, mine)| TxOut {
					value: *v,
					script_pubkey: if *mine { script.clone() } else { foreign.clone() },
				})
				.collect();
			// BDK takes several coinbases of one wallet for conflicting spends of the
			// null outpoint and forgets all but one: at most one here
			let coinbase = i == 0 && f.coinbase && f.depth.is_some();
			let t = if coinbase {
				tx(input(OutPoint::null(), vec![2, i as u8, 0x55]), outs)
			} else {
				let total: u64 = f.outs.iter().map(|o| o.0).sum();
				let prev = tx(
					input(OutPoint::null(), vec![2, i as u8, 0x66]),
					vec![TxOut { value: total + 1_000, script_pubkey: foreign.clone() }],
				);
				let id = prev.txid();
				l.txs.insert(id, prev);
				tx(input(OutPoint { txid: id, vout: 0 }, vec![]), outs)
			};
			let txid = t.txid();
			let immature = coinbase && f.depth.unwrap() < 120;
			for (vout, o) in t.output.iter().enumerate() {
				if o.script_pubkey != script {
					continue;
				}
				let p = OutPoint { txid, vout: vout as u32 };
				if immature {
					l.immature += 1;
					continue;
				}
				l.coins.insert(p, o.clone());
				conf.insert(p, f.depth.is_some());
				order.push(p);
			}
			if t.output.iter().any(|o| o.script_pubkey == script) {
				l.history.push((txid, f.depth.map_or(0, |d| TIP - d)));
			}
			l.txs.insert(txid, t);
		}
		for (k, share) in &self.spends {
			if order.is_empty() {
				break;
			}
			let p = order.remove(*k as usize * order.len() / 65_536);
			let coin = l.coins.remove(&p).unwrap();
			let confirmed = conf[&p];
			let back = (coin.value as u128 * *share as u128 / 65_536) as u64;
			let mut outs = vec![TxOut {
				value: coin.value.saturating_sub(back),
				script_pubkey: foreign.clone(),
			}];
			if back > 600 {
				outs.push(TxOut { value: back, script_pubkey: script.clone() });
			}
			let t = tx(input(p, vec![]), outs);
			let txid = t.txid();
			if back > 600 {
				let p = OutPoint { txid, vout: 1 };
				l.coins.insert(p, t.output[1].clone());
				conf.insert(p, confirmed);
				order.push(p);
			}
			l.history.push((txid, if confirmed { TIP - 1 } else { 0 }));
			l.txs.insert(txid, t);
			l.spent += 1;
		}
		l.history.sort_by_key(|h| if h.1 == 0 { u32::MAX } else { h.1 });
		l.total = l.coins.values().map(|c| c.value).sum();
		l.confirmed = l.coins.iter().filter(|(p, _)| conf[p]).map(|(_, c)| c.value).sum();
		l
	}
}

pub fn history() -> impl Strategy<Value = History> + Clone {
	let value = prop_oneof![
		3 => 1_000u64..100_000,
		3 => 100_000u64..10_000_000_000,
		1 => 546u64..1_500,
		1 => 10_000_000_000u64..100_000_000_000_000,
	];
	let funding = (
		prop::bool::weighted(0.3),
		prop_oneof![8 => (120u32..900).prop_map(Some), 1 => (1u32..20).prop_map(Some), 1 => Just(None)],
		vec((value, prop::bool::weighted(0.7)), 1..4),
	)
		.prop_map(|(coinbase, depth, outs)| Funding { coinbase, depth, outs });
	(
		seed32(),
		vec(funding, 0..5),
		prop_oneof![3 => Just(vec![]), 1 => vec((any::<u16>(), any::<u16>()), 1..3)],
	)
		.prop_map(|(key, funding, spends)| History { key, funding, spends })
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
	/// nobody listens
	Refuse,
	/// the given method gets an error reply
	Error(String),
	/// the connection is closed after so many requests, for ever
	Close(u16),
	/// replies are not JSON after so many requests
	Garbage(u16),
}

pub struct Server {
	pub url: String,
	addr: std::net::SocketAddr,
	state: Arc<State>,
	thread: Option<std::thread::JoinHandle<()>>,
}

struct State {
	stop: AtomicBool,
	requests: AtomicU64,
	/// faults that were really served
	faults: AtomicU64,
	fault: Option<Fault>,
	scripthash: String,
	ledger: Ledger,
	broadcasts: Mutex<Vec<String>>,
	/// reply to a broadcast: none to accept
	refuse: Option<String>,
}

impl Server {
	pub fn start(script: &Script, ledger: Ledger, fault: Option<Fault>, refuse: Option<String>) -> Self {
		let listener = TcpListener::bind("127.0.0.1:0").unwrap_or_else(|e| {
			eprintln!("cannot listen on the loopback network: {e}");
			std::process::exit(3)
		});
		let addr = listener.local_addr().unwrap();
		let mut h = sha256::Hash::hash(script.as_bytes()).into_inner();
		h.reverse();
		let state = Arc::new(State {
			stop: AtomicBool::new(false),
			requests: AtomicU64::new(0),
			faults: AtomicU64::new(0),
			scripthash: hex::encode(h),
			ledger,
			broadcasts: Mutex::new(vec![]),
			refuse,
			fault,
		});
		// nobody listens there, and no other server of this run ever will
		let host = if state.fault == Some(Fault::Refuse) { "127.0.0.3" } else { "127.0.0.1" };
		let url = format!("tcp://{host}:{}", addr.port());
		let thread = if state.fault == Some(Fault::Refuse) {
			state.faults.fetch_add(1, Ordering::SeqCst);
			drop(listener);
			None
		} else {
			let s = state.clone();
			Some(std::thread::spawn(move || {
				for c in listener.incoming() {
					if s.stop.load(Ordering::SeqCst) {
						break;
					}
					if let Ok(c) = c {
						let s = s.clone();
						std::thread::spawn(move || s.serve(c));
					}
				}
			}))
		};
		Self { url, addr, state, thread }
	}
	pub fn faults(&self) -> u64 {
		self.state.faults.load(Ordering::SeqCst)
	}
	pub fn requests(&self) -> u64 {
		self.state.requests.load(Ordering::SeqCst)
	}
	pub fn broadcasts(&self) -> Vec<String> {
		self.state.broadcasts.lock().unwrap().clone()
	}
}

impl Drop for Server {
	fn drop(&mut self) {
		self.state.stop.store(true, Ordering::SeqCst);
		let _ = TcpStream::connect(self.addr);
		if let Some(t) = self.thread.take() {
			let _ = t.join();
		}
	}
}

impl State {
	fn serve(&self, c: TcpStream) {
		let _ = c.set_nodelay(true);
		let Ok(mut out) = c.try_clone() else { return };
		for line in BufReader::new(c).lines() {
			let Ok(line) = line else { return };
			let Ok(req) = serde_json::from_str::<Value>(&line) else { return };
			let n = self.requests.fetch_add(1, Ordering::SeqCst);
			let reply = match &self.fault {
				Some(Fault::Close(k)) if n >= *k as u64 => {
					self.faults.fetch_add(1, Ordering::SeqCst);
					return;
				}
				Some(Fault::Garbage(k)) if n >= *k as u64 => {
					self.faults.fetch_add(1, Ordering::SeqCst);
					"<html>502 Bad Gateway</html>".to_string()
				}
				_ => {
					let r = match self.answer(
						req["method"].as_str().unwrap_or(""),
						&req["params"],
					) {
						Ok(v) => json!({"jsonrpc": "2.0", "id": req["id"], "result": v}),
						Err(e) => json!({"jsonrpc": "2.0", "id": req["id"], "error": {"code": 1, "message": e}}),
					};
					r.to_string()
				}
			};
			if out.write_all(format!("{reply}\n").as_bytes()).is_err() {
				return;
			}
		}
	}

	fn header(height: u64) -> String {
		let mut h = vec![0u8; 80];
		h[0] = 4;
		h[4..12].copy_from_slice(&height.to_le_bytes());
		h[68..72].copy_from_slice(&(1_600_000_000 + height as u32 * 600).to_le_bytes());
		hex::encode(h)
	}

	fn answer(&self, method: &str, params: &Value) -> Result<Value, String> {
		if self.fault == Some(Fault::Error(method.to_string())) {
			self.faults.fetch_add(1, Ordering::SeqCst);
			return Err("internal error".into());
		}
		let l = &self.ledger;
		let mine = || params[0].as_str() == Some(&self.scripthash);
		Ok(match method {
			"server.version" => json!(["fake", "1.4"]),
			"server.ping" => Value::Null,
			"server.banner" => json!(""),
			"server.features" => json!({"genesis_hash": "00".repeat(32), "hash_function": "sha256",
				"pruning": null, "server_version": "fake", "protocol_min": "1.4", "protocol_max": "1.4", "hosts": {}}),
			"blockchain.headers.subscribe" => json!({"height": TIP, "hex": Self::header(TIP as u64)}),
			"blockchain.block.header" => {
				let h = params[0].as_u64().ok_or("bad height")?;
				if h > TIP as u64 {
					return Err(format!("height {h} out of range"));
				}
				json!(Self::header(h))
			}
			"blockchain.estimatefee" => json!(0.00001),
			"blockchain.relayfee" => json!(0.00001),
			"blockchain.scripthash.get_history" => json!(if mine() {
				l.history
					.iter()
					.map(|(t, h)| json!({"tx_hash": t.to_string(), "height": h}))
					.collect::<Vec<_>>()
			} else {
				vec![]
			}),
			"blockchain.scripthash.listunspent" => json!(if mine() {
				l.coins
					.iter()
					.map(|(p, o)| {
						let h = l.history.iter().find(|h| h.0 == p.txid).map_or(0, |h| h.1);
						json!({"tx_hash": p.txid.to_string(), "tx_pos": p.vout, "height": h, "value": o.value})
					})
					.collect::<Vec<_>>()
			} else {
				vec![]
			}),
			"blockchain.scripthash.get_balance" => {
				let (c, t) = if mine() { (l.confirmed, l.total) } else { (0, 0) };
				json!({"confirmed": c, "unconfirmed": t - c})
			}
			"blockchain.scripthash.subscribe" => Value::Null,
			"blockchain.transaction.get" => {
				let id: Txid = params[0].as_str().and_then(|s| s.parse().ok()).ok_or("bad txid")?;
				let t = l.txs.get(&id).ok_or("no such transaction")?;
				json!(hex::encode(serialize(t)))
			}
			"blockchain.transaction.broadcast" => {
				let h = params[0].as_str().ok_or("bad transaction")?.to_string();
				self.broadcasts.lock().unwrap().push(h.clone());
				if let Some(e) = &self.refuse {
					return Err(e.clone());
				}
				let bytes = hex::decode(&h).map_err(|e| e.to_string())?;
				let t: Transaction = bdk::bitcoin::consensus::encode::deserialize(&bytes)
					.map_err(|e| e.to_string())?;
				json!(t.txid().to_string())
			}
			m => return Err(format!("unknown method {m}")),
		})
	}
}
