//! C32, and C27 for the process: the relay's main loop against simulated nodes.
use crate::{
	chain::*,
	engine::{net_name, payee, Op},
};
use bdk::bitcoin::{
	secp256k1::{PublicKey, Secp256k1},
	Network,
};
use proptest::{collection::vec, prelude::*};
use romeo::{config::Config, event::{Event, TransactionStatus}};
use serde::{Deserialize, Serialize};
use std::{
	collections::{BTreeMap, BTreeSet},
	path::{Path, PathBuf},
	sync::atomic::{AtomicU64, Ordering},
	time::Duration,
};
use vclarity::hash::sha256;
use vcore::{
	gens::{net, principal, Addr, Principal},
	keys::{ref_mnemonic, ref_p2tr, Xprv, H},
};
use vkit::{ensure, ensure_eq, guard, CheckResult, Outcome, Property, Stage};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	wallet: u8,
	net: u8,
	strict: bool,
	api_key: bool,
	name: u8,
	bitcoin_height: u32,
	stacks_height: u32,
	nonce: u64,
	fee_rate: u64,
	coins: Vec<u64>,
	plan: Vec<Vec<Op>>,
	/// seconds between blocks
	pace: (u8, u8),
	waits: Vec<u8>,
	/// Bitcoin blocks may come before the Stacks block of the previous one
	gaps: bool,
	faults: Vec<Fault>,
	restarts: Vec<Restart>,
	#[serde(default)]
	quirks: u8,
}

/// The process dies and comes back.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Restart {
	at: Crash,
	/// so much of the last record of its log is lost, of 255
	torn: u8,
	/// blocks mined until it is back
	meanwhile: (u8, u8),
}

const KEY: &str = "0123abcd-key";
const LOGINS: [(&str, &str); 5] = [
	("relay", "secret"),
	("relay", "se=cret+=="),
	("re lay@home", "p@ss:w/r?d#"),
	("__cookie__", "0123abcdef%41"),
	("rélay", "ü^|`{}[]"),
];
const NAMES: [&str; 4] = ["asset", "a", "sbtc-asset_1", "asset-for-the-developer-release-40-chars"];

fn op(n: Network) -> impl Strategy<Value = Op> + Clone {
	// people who can be paid and later withdraw
	let (version, holders): (u8, Vec<[u8; 20]>) = (
		if n == Network::Bitcoin { 22 } else { 26 },
		(1u8..4).map(|i| vcore::ops::stacks_p2pkh(n, &vcore::gens::pk(&[i; 32])).1).collect(),
	);
	let holder = (0usize..3).prop_map(move |i| Principal { version, hash: holders[i], contract: None });
	let to = prop_oneof![5 => holder, 1 => principal()];
	let amount = prop_oneof![
		2 => prop::sample::select(vec![1_000u64, 5_000, 10_000]),
		3 => 600u64..2_000_000,
		1 => 0u64..600,
		1 => 1u64 << 31..1 << 44,
	];
	let less = prop_oneof![2 => prop::sample::select(vec![1_000u64, 5_000, 10_000]), 3 => 600u64..300_000, 1 => 0u64..600, 1 => 1u64 << 31..1 << 39];
	let payees = prop_oneof![2 => (1u8..3).prop_map(|i| Addr::P2wpkh([i; 20])), 3 => payee()];
	prop_oneof![
		5 => (to, amount, any::<u8>()).prop_map(|(to, amount, tail)| Op::Deposit { to, amount, tail }),
		4 => ((1u8..4), payees, less, 600u64..10_000, any::<u8>()).prop_map(|(i, payee, amount, fee, tail)| {
			Op::Withdrawal { drawee: [i; 32], payee, amount, fee, tail }
		}),
		1 => crate::engine::near().prop_map(Op::Other),
	]
}

/// One deposit for each holder.
fn start(n: Network, amount: u64) -> Vec<Op> {
	(1u8..4)
		.map(|i| {
			let (version, hash) = vcore::ops::stacks_p2pkh(n, &vcore::gens::pk(&[i; 32]));
			Op::Deposit { to: Principal { version, hash, contract: None }, amount, tail: i }
		})
		.collect()
}

fn crash() -> impl Strategy<Value = Crash> + Clone {
	// sending is where most can go wrong
	let kind = prop_oneof![3 => 0u8..NODE_KINDS, 1 => Just(4u8), 1 => Just(12u8)];
	(kind, 0u8..5, any::<bool>()).prop_map(|(kind, nth, done)| Crash { kind, nth, done })
}

fn case(restarts: bool) -> impl Strategy<Value = Case> {
	let fault = (
		// sending is where most can go wrong
		prop_oneof![4 => 0u8..KINDS, 1 => Just(4u8), 1 => Just(12u8), 1 => Just(ELECTRUM)],
		prop_oneof![3 => 0u8..4, 1 => 0u8..30],
		prop::sample::select(vec![
			Wrong::Refused,
			Wrong::Lost,
			Wrong::Busy,
			Wrong::Gateway,
			Wrong::Mined,
			Wrong::LostMined,
		]),
	)
		.prop_map(|(kind, nth, wrong)| Fault { kind, nth, wrong });
	(0u8..4).prop_flat_map(move |n| {
		(
			(any::<u8>(), Just(n), any::<bool>(), any::<bool>(), any::<u8>()),
			(20u32..900_000, 1u32..200_000, 0u64..300, prop_oneof![Just(1u64), 2u64..1000]),
			(
				vec(1_000_000u64..50_000_000, 1..4),
				(0u8..6, crate::engine::blocks(op(net(n)), 1..6, 40)).prop_map(move |(rich, mut plan)| {
					if rich >= 3 {
						plan.insert(0, start(net(n), if rich == 5 { 1 << 40 } else { 1_000_000 }));
					}
					plan
				}),
			),
			((6u8..60, 4u8..60), vec(any::<u8>(), 0..6), any::<bool>(), 0u8..4),
			prop_oneof![1 => Just(vec![]), 2 => vec(fault.clone(), 1..6)],
			if restarts {
				vec(
					(crash(), any::<u8>(), (0u8..3, 0u8..3)).prop_map(|(at, torn, meanwhile)| Restart { at, torn, meanwhile }),
					1..4,
				)
				.boxed()
			} else {
				Just(vec![]).boxed()
			},
		)
			.prop_map(
				|((wallet, net, strict, api_key, name), (bitcoin_height, stacks_height, nonce, fee_rate), (coins, plan), (pace, waits, gaps, quirks), faults, restarts)| Case {
					wallet,
					net,
					strict,
					api_key,
					name,
					bitcoin_height,
					stacks_height,
					nonce,
					fee_rate,
					coins,
					plan,
					pace,
					waits,
					gaps,
					faults,
					restarts,
					quirks,
				},
			)
	})
}

/// A directory that goes away.
struct Dir(PathBuf);
impl Dir {
	fn new() -> Self {
		static COUNT: AtomicU64 = AtomicU64::new(0);
		let d = std::env::temp_dir().join(format!("vlive-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::SeqCst)));
		std::fs::create_dir_all(&d).unwrap();
		Self(d)
	}
}
impl Drop for Dir {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

#[derive(PartialEq, Debug)]
enum End {
	Settled,
	Crashed,
	OutOfTime,
}

/// Withdrawals that were burned and not paid, beyond those whose payment may have been lost.
/// Payments are told apart by payee and amount only.
fn unpaid<'a>(c: &'a Chains, lost: &Lost) -> BTreeMap<(&'a [u8], u64), (Vec<bdk::bitcoin::Txid>, usize)> {
	let mut groups = BTreeMap::<_, (Vec<_>, usize)>::new();
	for (id, w) in &c.wants {
		let Some((payee, dust)) = &w.payee else { continue };
		let burned = w.calls.first().is_some_and(|k| c.sent[k].result == Some(true));
		if w.amount < *dust || !burned {
			continue;
		}
		let g = groups.entry((&payee[..], w.amount)).or_default();
		if w.paid.is_empty() {
			g.0.push(*id);
		}
		if lost.payments.contains(id) || lost.calls.contains(id) {
			g.1 += 1;
		}
	}
	groups.retain(|_, g| g.0.len() > g.1);
	groups
}

/// Everything asked for has happened.
fn settled(c: &Chains, lost: &Lost) -> bool {
	c.planned()
		&& c.idle()
		&& (lost.key || c.keys_set.iter().any(|k| c.sent[k].result.is_some()))
		&& c.wants.iter().all(|(id, w)| match w.calls.first() {
			Some(k) => c.sent[k].result.is_some(),
			None => lost.calls.contains(id),
		})
		&& unpaid(c, lost).is_empty()
}

/// What may be missing after crashes: it was being created.
#[derive(Default, Debug)]
struct Lost {
	key: bool,
	calls: BTreeSet<bdk::bitcoin::Txid>,
	payments: BTreeSet<bdk::bitcoin::Txid>,
}

/// What the relay's log says, held against the chains while it grows.
struct Story {
	file: PathBuf,
	read: u64,
	part: Vec<u8>,
	begun: bool,
	bitcoin: u32,
	stacks: u32,
	/// what was sent for the Stacks chain, and whether it is final
	sent: BTreeMap<[u8; 32], bool>,
	paid: BTreeMap<bdk::bitcoin::Txid, bool>,
	requests: BTreeSet<bdk::bitcoin::Txid>,
	fulfilled: BTreeSet<bdk::bitcoin::Txid>,
	updates: usize,
}

impl Story {
	fn new(c: &Chains) -> Self {
		Self {
			file: c.setup.log.clone(),
			read: 0,
			part: vec![],
			begun: false,
			bitcoin: c.setup.bitcoin_height,
			stacks: c.setup.stacks_height,
			sent: BTreeMap::new(),
			paid: BTreeMap::new(),
			requests: BTreeSet::new(),
			fulfilled: BTreeSet::new(),
			updates: 0,
		}
	}

	/// Reads what is new.
	fn go_on(&mut self, c: &Chains) -> Result<(), String> {
		use std::io::{Read, Seek, SeekFrom};
		let Ok(mut f) = std::fs::File::open(&self.file) else { return Ok(()) };
		f.seek(SeekFrom::Start(self.read)).map_err(|e| e.to_string())?;
		self.read += f.read_to_end(&mut self.part).map_err(|e| e.to_string())? as u64;
		while let Some(i) = self.part.iter().position(|b| *b == b'\n') {
			let line: Vec<u8> = self.part.drain(..=i).collect();
			let e: Event = serde_json::from_slice(&line)
				.map_err(|e| format!("the log has a line that is no event ({e}): {}", String::from_utf8_lossy(&line)))?;
			self.event(c, e)?;
		}
		Ok(())
	}

	fn event(&mut self, c: &Chains, e: Event) -> Result<(), String> {
		let (b, s) = (c.setup.bitcoin_height, c.setup.stacks_height);
		match e {
			Event::ContractBlockHeight(stacks, bitcoin) => {
				ensure!(!self.begun, "the log finds the contract twice");
				self.begun = true;
				ensure_eq!((stacks, bitcoin), (s, b), "heights of the contract in the log");
			}
			Event::ContractPublicKeySetBroadcasted(id) => self.call(c, id.0, "set-bitcoin-wallet-public-key", None)?,
			Event::MintBroadcasted(i, id) => {
				let w = c.wants.get(&i.txid).filter(|w| w.payee.is_none()).ok_or("the log has a mint for no deposit")?;
				ensure_eq!((i.amount, i.block_height), (w.amount, w.height), "amount and height of a deposit in the log");
				self.call(c, id.0, "mint", Some(i.txid))?;
			}
			Event::BurnBroadcasted(i, id) => {
				self.withdrawal(c, &i)?;
				self.call(c, id.0, "burn", Some(i.txid))?;
			}
			Event::FulfillBroadcasted(i, id) => {
				self.withdrawal(c, &i)?;
				let Some(t) = c.payment(&id) else {
					return Err(format!("the log has the payment {id} for {}, which the Bitcoin node did not get", i.txid));
				};
				let to = t.output.get(1).map(|o| (o.script_pubkey.clone(), o.value));
				ensure_eq!(to, Some((i.recipient.script_pubkey(), i.amount)), "what a payment in the log pays");
				ensure!(self.fulfilled.insert(i.txid), "the log has two payments for {}", i.txid);
				ensure!(self.paid.insert(id, false).is_none(), "the log has the payment {id} twice");
			}
			Event::StacksTransactionUpdate(id, status) => {
				let result = c.sent.get(&id.0).and_then(|s| s.result);
				let Some(last) = self.sent.get_mut(&id.0) else {
					return Err(format!("the log has a status of {id}, which it has not sent"));
				};
				self.updates += 1;
				ensure!(!*last, "the log has a further status of {id}");
				*last = status != TransactionStatus::Broadcasted;
				match status {
					TransactionStatus::Broadcasted => {}
					TransactionStatus::Confirmed => ensure_eq!(result, Some(true), "outcome of a transaction the log has as confirmed"),
					TransactionStatus::Rejected => ensure_eq!(result, Some(false), "outcome of a transaction the log has as rejected"),
				}
			}
			Event::BitcoinTransactionUpdate(id, status) => {
				let Some(last) = self.paid.get_mut(&id) else {
					return Err(format!("the log has a status of {id}, which it has not paid"));
				};
				self.updates += 1;
				ensure!(!*last, "the log has a further status of {id}");
				*last = status != TransactionStatus::Broadcasted;
				ensure!(status != TransactionStatus::Rejected, "the log has the payment {id} as rejected");
				ensure!(!*last || c.in_chain(&id), "the log has the payment {id} as confirmed, which is in no block");
			}
			Event::StacksBlock(h, txs) => {
				self.stacks += 1;
				ensure_eq!(h, self.stacks, "height of the next Stacks block in the log");
				let got: Vec<[u8; 32]> = txs.iter().map(|t| t.txid().0).collect();
				ensure_eq!(Some(&got[..]), c.stacks_txs(h), "transactions of a Stacks block in the log");
			}
			Event::BitcoinBlock(h, block) => {
				self.bitcoin += 1;
				ensure_eq!(h, self.bitcoin, "height of the next Bitcoin block in the log");
				ensure!(c.bitcoin_block(h) == Some(&block), "the log has another Bitcoin block {h} than the node");
			}
		}
		Ok(())
	}

	fn withdrawal(&self, c: &Chains, i: &romeo::state::WithdrawalInfo) -> Result<(), String> {
		let w = c.wants.get(&i.txid).ok_or("the log has a burn or payment for no request")?;
		let to = w.payee.as_ref().map(|p| p.0.clone());
		ensure_eq!((i.amount, i.block_height), (w.amount, w.height), "amount and height of a request in the log");
		ensure_eq!(Some(i.recipient.script_pubkey().into_bytes()), to, "payee of a request in the log");
		Ok(())
	}

	/// A call of the contract.
	fn call(&mut self, c: &Chains, id: [u8; 32], function: &str, request: Option<bdk::bitcoin::Txid>) -> Result<(), String> {
		let name = hex::encode(id);
		let Some(s) = c.sent.get(&id) else {
			return Err(format!("the log has the {function} {name}, which the Stacks node did not get"));
		};
		ensure_eq!(s.function, function, "function called by a transaction in the log");
		if let Some(r) = request {
			ensure!(c.wants[&r].calls.contains(&id), "the log has the {function} {name} for {r}, which it is not for");
			ensure!(self.requests.insert(r), "the log has two calls for {r}");
		}
		ensure!(self.sent.insert(id, false).is_none(), "the log has the {function} {name} twice");
		Ok(())
	}

	/// What the relay has sent, and how it ended, beyond what may be lost.
	fn whole(&self, c: &Chains, lost: &Lost) -> Result<(), String> {
		ensure!(self.begun, "the log does not have the contract");
		for (id, s) in &c.sent {
			let name = hex::encode(id);
			let excused = match c.wants.iter().find(|w| w.1.calls.contains(id)) {
				Some((r, _)) => lost.calls.contains(r),
				None => lost.key,
			};
			match self.sent.get(id) {
				None => ensure!(excused, "the log does not have the {} {name}", s.function),
				Some(last) => ensure!(*last, "the log does not have the outcome of the {} {name}", s.function),
			}
		}
		let missing: Vec<_> = c.payments.iter().filter(|p| !self.paid.contains_key(*p)).collect();
		ensure!(missing.len() <= lost.payments.len(), "the log does not have the payments {missing:?}");
		for (id, last) in &self.paid {
			ensure!(*last, "the log does not have that the payment {id} was confirmed");
		}
		ensure!(self.bitcoin + 1 >= c.tip(), "the log does not go on after Bitcoin block {}", self.bitcoin);
		Ok(())
	}
}

/// Runs the relay until it has settled everything or died.
fn live(
	nodes: &Nodes,
	config: Config,
	case: &Case,
	lost: &Lost,
	seconds: &mut u64,
	mut story: Option<&mut Story>,
) -> Result<End, String> {
	let runtime = tokio::runtime::Builder::new_current_thread()
		.enable_all()
		.start_paused(true)
		.max_blocking_threads(1)
		.build()
		.unwrap();
	nodes.gone.store(false, Ordering::SeqCst);
	let notify = lock(&nodes.chains).notify.clone();
	let world = async {
		let (bitcoin, stacks) = (u64::from(case.pace.0.max(2)), u64::from(case.pace.1.max(2)));
		let mut quiet = None;
		// enough for twenty more blocks of each chain, and for every fault
		let patience = 600 + 25 * (bitcoin + stacks) + 120 * case.faults.len() as u64
			+ 20 * case.plan.iter().map(|p| p.len() as u64).sum::<u64>();
		let mut late = 0;
		loop {
			tokio::time::sleep(Duration::from_secs(1)).await;
			*seconds += 1;
			let now = *seconds;
			let mut c = lock(&nodes.chains);
			if now % stacks == 0 {
				c.mine_stacks();
			}
			if now % bitcoin == 0 {
				if !case.gaps && !c.anchored() {
					c.mine_stacks();
				}
				c.mine_bitcoin();
			}
			let told = match &mut story {
				None if !c.problems.is_empty() => return Ok(End::Settled),
				None => true,
				Some(s) => {
					s.go_on(&c)?;
					s.whole(&c, lost).is_ok()
				}
			};
			if told && settled(&c, lost) {
				// a few more blocks to see whether anything follows
				let (b, s) = c.lengths();
				let (b0, s0) = *quiet.get_or_insert((b, s));
				if b >= b0 + 2 && s >= s0 + 3 {
					return Ok(End::Settled);
				}
			} else {
				quiet = None;
			}
			if c.planned() {
				late += 1;
				if late > patience {
					return Ok(End::OutOfTime);
				}
			}
		}
	};
	let end = guard(|| {
		runtime.block_on(async {
			tokio::select! {
				biased;
				_ = notify.notified() => Ok(End::Crashed),
				_ = romeo::system::run(config) => Err("the relay has stopped".to_string()),
				end = world => end,
			}
		})
	});
	{
		let mut c = lock(&nodes.chains);
		c.kill();
	}
	nodes.gone.store(true, Ordering::SeqCst);
	drop(runtime);
	{
		let mut c = lock(&nodes.chains);
		c.crashed = false;
	}
	end?
}

fn config(case: &Case, nodes: &Nodes, dir: &Path, words: &str) -> Result<Config, String> {
	let n = net(case.net);
	let mut json = serde_json::json!({
		"state_directory": "state/of the relay",
		"mnemonic": words,
		"stacks_network": if n == Network::Bitcoin { "mainnet" } else { "testnet" },
		"bitcoin_network": net_name(n),
		"stacks_node_url": nodes.stacks_url,
		"bitcoin_node_url": nodes.bitcoin_url,
		"electrum_node_url": nodes.electrum_url,
		"contract_name": NAMES[case.name as usize % NAMES.len()],
		"strict": case.strict,
	});
	if case.api_key {
		json["hiro_api_key"] = KEY.into();
	}
	let file = dir.join("config.json");
	std::fs::write(&file, json.to_string()).unwrap();
	Config::from_path(&file).map_err(|e| format!("the configuration is refused: {e}"))
}

/// What the log says was being created when the process died; the torn record is gone.
fn lost(text: &str, c: &Chains, lost: &mut Lost) -> Result<(), String> {
	let mut announced = false;
	let mut blocks = BTreeSet::new();
	let mut sent = BTreeSet::new();
	let mut burns = BTreeMap::new();
	let mut confirmed: BTreeSet<bdk::bitcoin::Txid> = BTreeSet::new();
	let mut paid = BTreeSet::new();
	let mut key = false;
	for line in text.lines() {
		let e: Event = serde_json::from_str(line).map_err(|e| format!("the relay's log has a line that is no event: {e}"))?;
		match e {
			Event::ContractBlockHeight(..) => announced = true,
			Event::ContractPublicKeySetBroadcasted(_) => key = true,
			Event::MintBroadcasted(i, _) => {
				sent.insert(i.txid);
			}
			Event::BurnBroadcasted(i, id) => {
				sent.insert(i.txid);
				burns.insert(id.0, i.txid);
			}
			Event::FulfillBroadcasted(i, _) => {
				paid.insert(i.txid);
			}
			Event::StacksTransactionUpdate(id, TransactionStatus::Confirmed) => {
				confirmed.extend(burns.get(&id.0));
			}
			Event::BitcoinBlock(h, _) => {
				blocks.insert(h);
			}
			_ => {}
		}
	}
	lost.key |= announced && !key;
	for (id, w) in &c.wants {
		if blocks.contains(&w.height) && !sent.contains(id) {
			lost.calls.insert(*id);
		}
		if confirmed.contains(id) && !paid.contains(id) {
			lost.payments.insert(*id);
		}
	}
	Ok(())
}

fn run(case: &Case) -> CheckResult {
	run_as(case, false)
}

/// With its log held against the chains, instead of what it does.
fn run_told(case: &Case) -> CheckResult {
	run_as(case, true)
}

fn run_as(case: &Case, told: bool) -> CheckResult {
	let n = net(case.net);
	let words = ref_mnemonic(&sha256(&[b'l', case.wallet])[..if case.wallet % 2 == 0 { 16 } else { 32 }]);
	let master = Xprv::master(&words);
	let key = master.path(&[H + 86, H + u32::from(n != Network::Bitcoin), H, 0, 0]).key;
	let p = PublicKey::from_secret_key(&Secp256k1::new(), &key);
	let dir = Dir::new();
	let log = dir.0.join("state/of the relay/log.ndjson");
	let setup = Setup {
		log: log.clone(),
		net: n,
		asset: NAMES[case.name as usize % NAMES.len()].into(),
		key,
		wallet: ref_p2tr(n, &p).script_pubkey().into_bytes(),
		stacks_key: master.path(&[H + 44, H + 5757, H, 0, 0]).key,
		bitcoin_height: case.bitcoin_height,
		stacks_height: case.stacks_height,
		coins: case.coins.clone(),
		plan: case.plan.clone(),
		waits: case.waits.clone(),
		fee_rate: case.fee_rate,
		nonce: case.nonce,
		faults: case.faults.clone(),
		login: LOGINS[case.name as usize / 4 % LOGINS.len()],
		plain: case.name >= 128,
		quirks: case.quirks,
		api_key: case.api_key.then_some(KEY),
	};
	let nodes = Nodes::start(Chains::new(setup));
	let config = config(case, &nodes, &dir.0, &words)?;
	let mut seconds = 0;
	let mut gone = Lost::default();
	let mut restarts = case.restarts.iter();
	let mut happened = 0;
	let mut torn = 0;
	let mut story = told.then(|| Story::new(&lock(&nodes.chains)));
	loop {
		let next = restarts.next();
		lock(&nodes.chains).crash = next.map(|r| r.at);
		match live(&nodes, config.clone(), case, &gone, &mut seconds, story.as_mut())? {
			End::Crashed => {}
			End::OutOfTime => {
				break;
			}
			End::Settled => break,
		}
		let r = next.unwrap();
		happened += 1;
		let mut c = lock(&nodes.chains);
		if let (Some(p), false) = (c.problems.first(), told) {
			return Err(p.clone());
		}
		if let Some(s) = &mut story {
			s.go_on(&c)?;
		}
		let text = std::fs::read_to_string(&log).unwrap_or_default();
		let mut keep = text.len();
		let last = text.strip_suffix('\n').unwrap_or(&text).rfind('\n').map_or(0, |i| i + 1);
		// it can have died while recording only if it has done nothing since
		if r.torn > 0 && !text.is_empty() && c.mark <= last as u64 {
			// the newline at least
			let cut = 1 + (text.len() - last - 1) * (r.torn as usize - 1) / 254;
			keep = text.len() - cut;
			if keep > last {
				torn += 1;
			}
			std::fs::write(&log, &text[..keep]).map_err(|e| format!("the log cannot be written: {e}"))?;
		}
		if told {
			// from its first record again
			story = Some(Story::new(&c));
		}
		if std::env::var("VLIVE_DEBUG").is_ok() {
			eprintln!("at {seconds}s the process dies, its log (keeping {keep} of {}):\n{text}", text.len());
		}
		let whole = text[..keep].rfind('\n').map_or(0, |i| i + 1);
		// a record without its newline may count or not
		lost(&text[..whole], &c, &mut gone)?;
		lost(&text[..keep], &c, &mut gone).or_else(|e| if keep > whole { Ok(()) } else { Err(e) })?;
		for _ in 0..r.meanwhile.0 {
			if !case.gaps && !c.anchored() {
				c.mine_stacks();
			}
			c.mine_bitcoin();
		}
		for _ in 0..r.meanwhile.1 {
			c.mine_stacks();
		}
	}
	let c = lock(&nodes.chains);
	if std::env::var("VLIVE_DEBUG").is_ok() {
		eprintln!("at {seconds}s, lost {gone:?}, its log:\n{}", std::fs::read_to_string(&log).unwrap_or_default());
	}
	if let Some(mut s) = story {
		s.go_on(&c)?;
		s.whole(&c, &gone)?;
		return Ok(Outcome::new(s.updates > 1)
			.label(net_name(n))
			.label(if case.strict { "strict" } else { "lenient" })
			.label_if(s.paid.len() > 0, "paid")
			.label_if(c.sent.values().any(|t| t.result == Some(false)), "refused-by-the-contract")
			.label_if(case.quirks & 1 != 0, "unknown-while-pending")
			.label_if(happened > 0, "restarted")
			.label_if(torn > 0, "torn-record"));
	}
	if let Some(p) = c.problems.first() {
		return Err(p.clone());
	}
	ensure!(
		gone.key && happened > 0 || c.keys_set.iter().any(|k| c.sent[k].result == Some(true)),
		"the wallet's public key was never set"
	);
	if happened == 0 {
		ensure_eq!(c.keys_set.len(), 1, "number of times the wallet's public key was set");
	}
	let (mut mints, mut paid, mut refused) = (0, 0, 0);
	for (id, w) in &c.wants {
		let what = if w.payee.is_some() { "withdrawal" } else { "deposit" };
		let done = w.calls.first().map(|k| c.sent[k].result);
		if gone.calls.contains(id) && done.is_none() {
			continue;
		}
		let Some(done) = done else {
			return Err(format!("the {what} {id} in block {} is never processed", w.height));
		};
		ensure!(done.is_some(), "the transaction for the {what} {id} is never mined");
		match (&w.payee, done) {
			(None, Some(true)) => mints += 1,
			(Some((_, dust)), Some(true)) if w.amount >= *dust => {
				// the nodes take at most one
				paid += w.paid.len();
			}
			_ => refused += 1,
		}
	}
	if let Some((_, (ids, excused))) = unpaid(&c, &gone).first_key_value() {
		return Err(format!("the withdrawals {ids:?} (or all but {excused}) are burned and never paid"));
	}
	// what the contract says
	let data = &c.world.data[&c.setup.asset];
	let token = &data.tokens["sbtc"];
	let model: Vec<_> = c.balances.iter().filter(|b| *b.1 > 0).collect();
	let real: Vec<_> = token.balances.iter().filter(|b| *b.1 > 0).collect();
	ensure_eq!(real, model, "balances");
	let o = Outcome::new(match case.restarts.is_empty() {
		true => mints + paid > 0,
		false => happened > 0 && c.sent_count > 1,
	})
	.label(net_name(n))
	.label_if(mints > 1, "several-mints")
	.label_if(paid > 0, "paid")
	.label_if(paid > 1, "several-payments")
	.label_if(refused > 0, "refused-by-the-contract")
	.label_if(happened > 0, "restarted")
	.label_if(happened > 1, "several-restarts")
	.label_if(torn > 0, "torn-record")
	.label_if(!gone.calls.is_empty() || !gone.payments.is_empty(), "creation-lost");
	let kinds: BTreeSet<String> = c.hit.iter().cloned().collect();
	Ok(kinds.into_iter().fold(o, Outcome::label))
}

pub fn c32() -> Property {
	Property::new(
		"C32",
		"A case is a relay configuration, blocks of operations of few people, the pace of both chains, how long transactions wait, and failures of single requests. Non-trivial when at least one mint or payment was made.",
	)
	.assume("Electrum knows what the node knows, and the wallet holds enough for fees")
	.assume("withdrawals below the dust limit of their payee cannot be paid")
	.stage(Stage::new("live", 8_000, 250_000, || case(false), run).shrink(150))
}

pub fn process() -> Stage<Case> {
	Stage::new("process", 6_000, 200_000, || case(true), run).shrink(150)
}

pub fn c34() -> Property {
	Property::new(
		"C34",
		"A case is as for C32, in the second stage with the process dying up to three times, as for C27. Non-trivial when the log has the outcome of at least two transactions.",
	)
	.assume("Electrum knows what the node knows, and the wallet holds enough for fees")
	.stage(Stage::new("log", 3_000, 100_000, || case(false), run_told).shrink(150))
	.stage(Stage::new("restarts", 2_000, 80_000, || case(true), run_told).shrink(150))
}
