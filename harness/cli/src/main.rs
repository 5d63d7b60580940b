//! C21-C24, C35: the `sbtc` command line program, run as users run it, against a fake
//! Electrum server on the loopback network.
mod devnet;
mod server;

use std::process::{Command, Stdio};

use bdk::bitcoin::{
	consensus::encode::{deserialize, serialize},
	secp256k1::{PublicKey, Secp256k1},
	Network, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxOut, Witness,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use server::*;
use vcore::{gens::*, keys::*, ops::*, text::*, wallets::*};
use vkit::{ensure, ensure_eq, proptest, CheckResult, Outcome, Property, Stage};

pub struct Run {
	ok: bool,
	stdout: String,
	stderr: String,
}

fn sbtc(args: &[String]) -> Run {
	let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
	// a hanging command is an error of the check, not a violation
	let out = Command::new("timeout")
		.args(["-k", "5", "150"])
		.arg(format!("{dir}/target/debug/sbtc"))
		.args(args)
		.env_clear()
		.env("PATH", "/usr/bin:/bin")
		.stdin(Stdio::null())
		.output()
		.unwrap_or_else(|e| {
			eprintln!("cannot run sbtc: {e}");
			std::process::exit(3)
		});
	match out.status.code() {
		Some(124..=127) | Some(137) => {
			eprintln!("sbtc {args:?}: {:?}", out.status);
			std::process::exit(3)
		}
		_ => {}
	}
	Run {
		ok: out.status.success(),
		stdout: String::from_utf8_lossy(&out.stdout).into(),
		stderr: String::from_utf8_lossy(&out.stderr).into(),
	}
}

fn clean(s: &str) -> String {
	let s = s.replace('\0', "x");
	if s.starts_with('-') {
		format!("x{s}")
	} else {
		s
	}
}

/// No transaction may be printed by a command that failed.
fn no_transaction(r: &Run) -> Result<(), String> {
	ensure!(!r.stdout.contains("hex"), "failed, but printed {:?}", r.stdout);
	let mut run = 0;
	for ch in r.stdout.chars() {
		run = if ch.is_ascii_hexdigit() { run + 1 } else { 0 };
		ensure!(run < 64, "failed, but printed {:?}", r.stdout);
	}
	Ok(())
}

fn printed_tx(r: &Run) -> Result<Transaction, String> {
	let v: Value = serde_json::from_str(&r.stdout)
		.map_err(|e| format!("stdout is not one JSON document ({e}): {:?}", r.stdout))?;
	let h = v["hex"].as_str().ok_or("no hex printed")?;
	let bytes = hex::decode(h).map_err(|e| format!("hex: {e}"))?;
	let tx: Transaction = deserialize(&bytes).map_err(|e| format!("transaction: {e}"))?;
	ensure_eq!(v["id"], json!(tx.txid().to_string()), "printed id");
	Ok(tx)
}

/// Options in one of several orders and spellings.
fn arrange(command: &str, options: &[(&str, &str, String)], shape: u8) -> Vec<String> {
	let mut v = vec![command.to_string()];
	let n = options.len();
	for i in 0..n {
		let k = if shape & 1 == 1 { n - 1 - i } else { (i + (shape >> 4) as usize) % n };
		let (short, long, value) = &options[k];
		match (shape >> 1) & 3 {
			0 => v.extend([format!("-{short}"), value.clone()]),
			1 => v.extend([format!("--{long}"), value.clone()]),
			2 => v.push(format!("--{long}={value}")),
			_ if i % 2 == 0 => v.push(format!("-{short}{value}")),
			_ => v.extend([format!("--{long}"), value.clone()]),
		}
	}
	v
}

/// What is wrong with an invocation.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
	/// a character of the WIF (of the drawee if the flag is set)
	Wif(bool, u16, u8),
	WifNetwork,
	WifText(bool, String),
	Network(String),
	/// of the sBTC wallet, or of the payee if the flag is set
	Address(bool, u16, u8),
	Number(bool, u8),
	Missing(u8),
	/// an option's value with something before or after it
	Wrap(u8, u8),
	Fault(Fault),
}

/// Whatever option they decorate, the value is no longer one of its kind.
const WRAPS: [(&str, &str); 10] = [
	("", ":x"), ("", "?amount=1"), ("", "/"), ("", ",1"), (":", ""), ("bitcoin:", ""), ("", "..a"), ("", "#1"), ("\"", "\""), ("", "\u{e9}"),
];

fn wrap(options: &mut [(&str, &str, String)], which: u8, how: u8) {
	// never the URL, whose path is free
	let k = 1 + which as usize % (options.len() - 1);
	let (a, b) = WRAPS[how as usize % WRAPS.len()];
	options[k].2 = format!("{a}{}{b}", options[k].2);
}

const NUMBERS: [&str; 9] = [
	"-1", "1.5", "18446744073709551616", "", "abc", "0x10", "1e3", "340282366920938463463374607431768211457", "1 000",
];

fn bad() -> impl Strategy<Value = Bad> + Clone {
	let method = prop::sample::select(vec![
		"blockchain.scripthash.get_history",
		"blockchain.transaction.get",
		"blockchain.block.header",
		"blockchain.headers.subscribe",
	]);
	prop_oneof![
		2 => (any::<bool>(), any::<u16>(), 1u8..58).prop_map(|(d, i, x)| Bad::Wif(d, i, x)),
		1 => Just(Bad::WifNetwork),
		1 => (any::<bool>(), "[1-9A-HJ-NP-Za-km-z]{0,52}").prop_map(|(d, s)| Bad::WifText(d, s)),
		1 => prop_oneof![Just("mainet".to_string()), Just("test net".to_string()), "[a-z]{0,8}"].prop_map(Bad::Network),
		3 => (any::<bool>(), any::<u16>(), 1u8..32).prop_map(|(d, i, x)| Bad::Address(d, i, x)),
		2 => (any::<bool>(), 0..NUMBERS.len() as u8).prop_map(|(d, i)| Bad::Number(d, i)),
		1 => any::<u8>().prop_map(Bad::Missing),
		3 => (any::<u8>(), any::<u8>()).prop_map(|(k, h)| Bad::Wrap(k, h)),
		3 => method.prop_map(|m| Bad::Fault(Fault::Error(m.into()))),
		1 => Just(Bad::Fault(Fault::Refuse)),
	]
}

fn edit_char(s: &str, i: u16, d: u8, alphabet: &[u8]) -> String {
	let mut b = s.as_bytes().to_vec();
	let k = i as usize % b.len();
	let at = alphabet.iter().position(|c| *c == b[k]).unwrap_or(0);
	b[k] = alphabet[(at + d as usize) % alphabet.len()];
	String::from_utf8(b).unwrap()
}

const B58C: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
const B32C: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";

fn bad_address(a: &Addr, n: Network, i: u16, d: u8) -> String {
	let s = a.build(n).to_string();
	match a {
		Addr::P2pkh(_) | Addr::P2sh(_) => edit_char(&s, i, d, B58C),
		_ => {
			// keep the human-readable part; one substitution is always detected
			let sep = s.rfind('1').unwrap() + 1;
			format!("{}{}", &s[..sep], edit_char(&s[sep..], i, d, B32C))
		}
	}
}

fn main_net(n: Network) -> bool {
	n == Network::Bitcoin
}

fn bad_wif(wif: &str, bad: &Bad, which: bool) -> Option<String> {
	match bad {
		Bad::Wif(d, i, x) if *d == which => Some(edit_char(wif, *i, *x, B58C)),
		Bad::WifText(d, s) if *d == which => Some(s.clone()),
		_ => None,
	}
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Recipient {
	Good(Principal),
	Text(AddrText, Option<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DepositRun {
	net: u8,
	recipient: Recipient,
	wallet: Addr,
	amount: Amt,
	history: History,
	shape: u8,
	bad: Option<Bad>,
}

fn deposit_run() -> impl Strategy<Value = DepositRun> {
	let recipient = prop_oneof![
		9 => principal().prop_map(Recipient::Good),
		1 => (addr_text(), prop::option::of(prop_oneof![contract_name(), "[a-z0-9. -]{0,44}"])).prop_map(|(a, c)| Recipient::Text(a, c)),
	];
	(0u8..4, recipient, addr(), amt(), history(), any::<u8>(), prop::option::weighted(0.25, bad()))
		.prop_map(|(net, recipient, wallet, amount, history, shape, bad)| DepositRun {
			net,
			recipient,
			wallet,
			amount,
			history,
			shape,
			bad,
		})
}

fn deposit_check(c: &DepositRun) -> CheckResult {
	let n = net(c.net);
	let ledger = c.history.ledger();
	let amount = c.amount.get(c.wallet.dust(), ledger.total);
	let mut valid = true;
	let mut o = Outcome::new(false)
		.label(c.wallet.kind())
		.label_if(ledger.spent > 0, "spent-coins")
		.label_if(ledger.immature > 0, "immature-coinbase")
		.label_if(ledger.total > ledger.confirmed, "unconfirmed-coins");
	let mut wif = ref_wif(main_net(n), &sk(&c.history.key));
	let mut wallet = c.wallet.build(n).to_string();
	let mut amount_text = amount.to_string();
	let mut network = n.to_string();
	let (recipient, principal) = match &c.recipient {
		Recipient::Good(p) => {
			let a = ref_address(p.version, &p.hash);
			(
				match &p.contract {
					Some(x) => format!("{a}.{x}"),
					None => a,
				},
				Some(p.clone()),
			)
		}
		Recipient::Text(a, k) => {
			let a = clean(&a.text());
			let t = match k {
				Some(k) => format!("{a}.{k}"),
				None => a.clone(),
			};
			// only texts that are surely wrong: an address that does not parse
			if ref_address_parse(&a).is_some() || a.contains('.') {
				return Ok(o.label("skipped"));
			}
			(t, None)
		}
	};
	valid &= principal.is_some();
	let mut fault = None;
	let mut missing = None;
	let mut wrapped = None;
	if let Some(b) = &c.bad {
		o = o.label(format!("{b:?}").split(['(', ' ', '{']).next().unwrap().to_string());
		match b {
			Bad::Wif(..) | Bad::WifText(..) => match bad_wif(&wif, b, false) {
				Some(w) if w != wif => {
					wif = w;
					valid = false
				}
				_ => {}
			},
			Bad::WifNetwork => {
				wif = ref_wif(!main_net(n), &sk(&c.history.key));
				valid = false
			}
			Bad::Network(s) => {
				if NETS.iter().any(|n| n.to_string() == *s) {
					return Ok(o.label("skipped"));
				}
				network = s.clone();
				valid = false
			}
			Bad::Address(_, i, d) => {
				wallet = bad_address(&c.wallet, n, *i, *d);
				valid = false
			}
			Bad::Number(_, i) => {
				amount_text = NUMBERS[*i as usize].into();
				valid = false
			}
			Bad::Missing(k) => {
				missing = Some(*k as usize % 6);
				valid = false
			}
			Bad::Wrap(k, h) => {
				wrapped = Some((*k, *h));
				valid = false
			}
			Bad::Fault(f) => fault = Some(f.clone()),
		}
	}
	let script = c.history.script();
	let coins = ledger.coins.clone();
	let (total, confirmed) = (ledger.total, ledger.confirmed);
	let server = Server::start(&script, ledger, fault, None);
	let mut options = vec![
		("u", "node-url", server.url.clone()),
		("w", "wif", wif),
		("n", "network", network),
		("r", "recipient", recipient),
		("a", "amount", amount_text),
		("s", "sbtc-wallet", wallet),
	];
	if let Some((k, h)) = wrapped {
		wrap(&mut options, k, h);
	}
	if let Some(k) = missing {
		options.remove(k);
	}
	let args = arrange("deposit", &options, c.shape);
	let r = sbtc(&args);
	let faulty = server.faults() > 0;
	if !valid || faulty || amount < c.wallet.dust() || total <= amount {
		let why = if !valid {
			"invalid-arguments"
		} else if faulty {
			"server-fault"
		} else if amount < c.wallet.dust() {
			"below-dust"
		} else {
			"unfunded"
		};
		ensure!(!r.ok, "{why}: exit status 0 for {args:?}, printed {:?}", r.stdout);
		no_transaction(&r).map_err(|e| format!("{why}: {e}"))?;
		return Ok(Outcome { nontrivial: true, ..o }.label(why));
	}
	if !r.ok {
		ensure!(
			!surely_funded(confirmed, amount, coins.len()),
			"valid and fundable deposit refused: {args:?}: {}",
			r.stderr
		);
		no_transaction(&r)?;
		return Ok(o.label("barely-funded"));
	}
	let tx = printed_tx(&r)?;
	verify_spend(&tx, &coins, &c.history.key)?;
	let change = deposit_layout(n, &tx, &principal.unwrap(), &c.wallet, amount, &script)?;
	Ok(Outcome { nontrivial: true, ..o }.label("built").label_if(change, "change"))
}

pub fn c21() -> Property {
	Property::new(
		"C21",
		"A case is a network, recipient, sBTC wallet address, amount, a history of the funding address (coins of several transactions, spent, unconfirmed and immature ones), an order and spelling of the options, and in a quarter of the cases one fault of the arguments or of the server. The program itself is run; non-trivial when a transaction was printed and verified or a refusal was due.",
	)
	.assume("at most one coinbase pays the funding address: BDK 0.28 forgets all but one coinbase of a wallet")
	.assume("coin selection and output shuffling of the wallet library draw their own randomness; a case is one such draw")
	.stage(Stage::new("run", 7_000, 150_000, deposit_run, deposit_check).threads(16).attempts(20).shrink(150))
	.stage(Stage::new("connection-faults", 16, 400, || conn_fault(deposit_run().boxed(), |c, f| c.bad = Some(Bad::Fault(f))), deposit_check).threads(16).shrink(3))
}

/// Connection faults: the client library waits several seconds between attempts.
fn conn_fault<C: std::fmt::Debug + Clone + 'static>(
	base: BoxedStrategy<C>,
	set: fn(&mut C, Fault),
) -> BoxedStrategy<C> {
	let fault = prop_oneof![
		(0u16..6).prop_map(Fault::Close),
		(0u16..6).prop_map(Fault::Garbage),
	];
	(base, fault)
		.prop_map(move |(mut c, f)| {
			set(&mut c, f);
			c
		})
		.boxed()
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WithdrawRun {
	net: u8,
	drawee: [u8; 32],
	/// the drawee's WIF is that of an uncompressed public key
	#[serde(default)]
	long_key: bool,
	payee: Addr,
	wallet: Addr,
	same: bool,
	amount: u64,
	fee: Amt,
	history: History,
	shape: u8,
	bad: Option<Bad>,
}

fn withdraw_run() -> impl Strategy<Value = WithdrawRun> {
	(
		(0u8..4, seed32(), addr(), addr(), prop::bool::weighted(0.1), amount_any(), amt()),
		(history(), any::<u8>(), prop::option::weighted(0.25, bad()), prop::bool::weighted(0.15)),
	)
		.prop_map(
			|((net, drawee, payee, wallet, same, amount, fee), (history, shape, bad, long_key))| {
				WithdrawRun {
					net,
					drawee,
					long_key,
					payee,
					wallet,
					same,
					amount,
					fee,
					history,
					shape,
					bad,
				}
			},
		)
}

fn withdraw_check(c: &WithdrawRun) -> CheckResult {
	let n = net(c.net);
	let wallet = if c.same { c.payee.clone() } else { c.wallet.clone() };
	let ledger = c.history.ledger();
	let fee = c.fee.get(wallet.dust(), ledger.total);
	let mut valid = true;
	let mut o = Outcome::new(false)
		.label(c.payee.kind())
		.label_if(ledger.spent > 0, "spent-coins")
		.label_if(ledger.immature > 0, "immature-coinbase")
		.label_if(ledger.total > ledger.confirmed, "unconfirmed-coins");
	let mut wif = ref_wif(main_net(n), &sk(&c.history.key));
	let mut drawee = match c.long_key {
		true => ref_wif_uncompressed(main_net(n), &sk(&c.drawee)),
		false => ref_wif(main_net(n), &sk(&c.drawee)),
	};
	o = o.label_if(c.long_key, "uncompressed-drawee");
	let mut payee_text = c.payee.build(n).to_string();
	let mut wallet_text = wallet.build(n).to_string();
	let mut amount_text = c.amount.to_string();
	let mut fee_text = fee.to_string();
	let mut network = n.to_string();
	let mut fault = None;
	let mut missing = None;
	let mut wrapped = None;
	if let Some(b) = &c.bad {
		o = o.label(format!("{b:?}").split(['(', ' ', '{']).next().unwrap().to_string());
		match b {
			Bad::Wif(d, ..) | Bad::WifText(d, ..) => {
				let t = if *d { &mut drawee } else { &mut wif };
				if let Some(w) = bad_wif(t, b, *d) {
					*t = w;
					valid = false;
				}
			}
			Bad::WifNetwork => {
				wif = ref_wif(!main_net(n), &sk(&c.history.key));
				valid = false
			}
			Bad::Network(s) => {
				if NETS.iter().any(|n| n.to_string() == *s) {
					return Ok(o.label("skipped"));
				}
				network = s.clone();
				valid = false
			}
			Bad::Address(p, i, d) => {
				if *p {
					payee_text = bad_address(&c.payee, n, *i, *d);
				} else {
					wallet_text = bad_address(&wallet, n, *i, *d);
				}
				valid = false
			}
			Bad::Number(f, i) => {
				*(if *f { &mut fee_text } else { &mut amount_text }) = NUMBERS[*i as usize].into();
				valid = false
			}
			Bad::Missing(k) => {
				missing = Some(*k as usize % 8);
				valid = false
			}
			Bad::Wrap(k, h) => {
				wrapped = Some((*k, *h));
				valid = false
			}
			Bad::Fault(f) => fault = Some(f.clone()),
		}
	}
	let script = c.history.script();
	let coins = ledger.coins.clone();
	let (total, confirmed) = (ledger.total, ledger.confirmed);
	let server = Server::start(&script, ledger, fault, None);
	let mut options = vec![
		("u", "node-url", server.url.clone()),
		("n", "network", network),
		("w", "wif", wif),
		("d", "drawee-wif", drawee),
		("b", "payee-address", payee_text),
		("a", "amount", amount_text),
		("f", "fulfillment-fee", fee_text),
		("s", "sbtc-wallet", wallet_text),
	];
	if let Some((k, h)) = wrapped {
		wrap(&mut options, k, h);
	}
	if let Some(k) = missing {
		options.remove(k);
	}
	let args = arrange("withdraw", &options, c.shape);
	let r = sbtc(&args);
	let faulty = server.faults() > 0;
	let needed = fee.saturating_add(c.payee.dust());
	if !valid || faulty || fee < wallet.dust() || total <= needed {
		let why = if !valid {
			"invalid-arguments"
		} else if faulty {
			"server-fault"
		} else if fee < wallet.dust() {
			"below-dust"
		} else {
			"unfunded"
		};
		ensure!(!r.ok, "{why}: exit status 0 for {args:?}, printed {:?}", r.stdout);
		no_transaction(&r).map_err(|e| format!("{why}: {e}"))?;
		return Ok(Outcome { nontrivial: true, ..o }.label(why));
	}
	if !r.ok {
		ensure!(
			!surely_funded(confirmed, needed, coins.len()),
			"valid and fundable withdrawal refused: {args:?}: {}",
			r.stderr
		);
		no_transaction(&r)?;
		return Ok(o.label("barely-funded"));
	}
	let tx = printed_tx(&r)?;
	verify_spend(&tx, &coins, &c.history.key)?;
	let (change, _) =
		withdrawal_layout(n, &tx, &c.drawee, &c.payee, &wallet, c.amount, fee, &script)?;
	Ok(Outcome { nontrivial: true, ..o }
		.label("built")
		.label_if(change, "change")
		.label_if(c.same, "payee-is-wallet"))
}

pub fn c22() -> Property {
	Property::new(
		"C22",
		"A case is a network, drawee key, payee, sBTC wallet address (10% the payee itself), amount, fee, a history of the funding address (coins of several transactions, spent, unconfirmed and immature ones), an order and spelling of the options, and in a quarter of the cases one fault of the arguments or of the server. The program itself is run; non-trivial when a transaction was printed and verified, including the recovery of the drawee's key from the signature over the documented message, or a refusal was due.",
	)
	.assume("at most one coinbase pays the funding address: BDK 0.28 forgets all but one coinbase of a wallet")
	.assume("coin selection and output shuffling of the wallet library draw their own randomness; a case is one such draw")
	.stage(Stage::new("run", 7_000, 150_000, withdraw_run, withdraw_check).threads(16).attempts(20).shrink(150))
	.stage(Stage::new("connection-faults", 16, 400, || conn_fault(withdraw_run().boxed(), |c, f| c.bad = Some(Bad::Fault(f))), withdraw_check).threads(16).shrink(3))
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GenerateRun {
	entropy: Vec<u8>,
	/// none: the default
	stacks: Option<bool>,
	/// letter case of the Stacks network name
	upper: bool,
	bitcoin: Option<u8>,
	accounts: Option<u16>,
	shape: u8,
	fresh: bool,
}

fn generate_run() -> impl Strategy<Value = GenerateRun> {
	(
		entropy(),
		prop::option::weighted(0.9, any::<bool>()),
		prop::bool::weighted(0.2),
		prop::option::weighted(0.9, 0u8..4),
		prop::option::weighted(0.9, prop_oneof![60 => 0u16..5, 10 => 9u16..13, 1 => 254u16..270]),
		any::<u8>(),
		prop::bool::weighted(0.2),
	)
		.prop_map(|(entropy, stacks, upper, bitcoin, accounts, shape, fresh)| GenerateRun {
			entropy,
			stacks,
			upper,
			bitcoin,
			accounts,
			shape,
			fresh,
		})
}

/// The document as the standards have it.
fn document(words: &str, mainnet: bool, n: Network, accounts: u16) -> Value {
	let secp = Secp256k1::new();
	let master = Xprv::master(words);
	let main = main_net(n);
	let coin = H + if main { 0 } else { 1 };
	let mut creds = serde_json::Map::new();
	for i in 0..accounts as u32 {
		let k = master.path(&[H + 44, H + 5757, H, 0, i]).key;
		let p = PublicKey::from_secret_key(&secp, &k);
		let b = |purpose: u32, address: &dyn Fn(&PublicKey) -> String| {
			let k = master.path(&[H + purpose, coin, H + i, 0, 0]).key;
			let p = PublicKey::from_secret_key(&secp, &k);
			json!({
				"private_key": hex::encode(k.secret_bytes()),
				"public_key": p.to_string(),
				"address": address(&p),
				"wif": ref_wif(main, &k),
			})
		};
		creds.insert(
			i.to_string(),
			json!({
				"stacks": {
					"private_key": hex::encode(k.secret_bytes()),
					"public_key": p.to_string(),
					"address": ref_address(if mainnet { 22 } else { 26 }, &h160(&p.serialize())),
					"wif": ref_wif(mainnet, &k),
				},
				"bitcoin": {
					"p2pkh": b(44, &|p| ref_p2pkh(main, p)),
					"p2wpkh": b(84, &|p| ref_p2wpkh(n, p).to_string()),
					"p2tr": b(86, &|p| ref_p2tr(n, p).to_string()),
				},
			}),
		);
	}
	json!({
		"mnemonic": words,
		"private_key": hex::encode(master.key.secret_bytes()),
		"wif": ref_wif(mainnet, &master.key),
		"credentials": creds,
		"network_stacks": if mainnet { "mainnet" } else { "testnet" },
		"network_bitcoin": n.to_string(),
	})
}

fn generate_args(c: &GenerateRun) -> Vec<String> {
	let mut options = vec![];
	if let Some(m) = c.stacks {
		let s = if m { "mainnet" } else { "testnet" };
		options.push((
			"s",
			"stacks-network",
			if c.upper { s.to_uppercase() } else { s.to_string() },
		));
	}
	if let Some(b) = c.bitcoin {
		options.push(("b", "bitcoin-network", net(b).to_string()));
	}
	if let Some(a) = c.accounts {
		options.push(("a", "accounts", a.to_string()));
	}
	if options.is_empty() {
		return vec!["generate-from".into()];
	}
	arrange("generate-from", &options, c.shape)
}

/// Every value of the reference document must be printed; nothing else may differ.
fn compare(got: &Value, want: &Value) -> Result<(), String> {
	for (k, w) in want.as_object().unwrap() {
		if k == "credentials" {
			let (g, w) = (got[k].as_object().ok_or("no credentials")?, w.as_object().unwrap());
			ensure_eq!(
				g.keys().collect::<std::collections::BTreeSet<_>>(),
				w.keys().collect::<std::collections::BTreeSet<_>>(),
				"accounts"
			);
			for (i, w) in w {
				for (chain, w) in w.as_object().unwrap() {
					for (f, w) in w.as_object().unwrap() {
						ensure_eq!(g[i][chain][f], *w, "account {i}, {chain} {f}");
					}
				}
			}
		} else {
			ensure_eq!(got[k], *w, "{k}");
		}
	}
	Ok(())
}

fn generate_check(c: &GenerateRun) -> CheckResult {
	let mut args = generate_args(c);
	let words = ref_mnemonic(&c.entropy);
	if c.fresh {
		args.push("new".into());
	} else {
		args.extend(["mnemonic".into(), words.clone()]);
	}
	let r = sbtc(&args);
	ensure!(r.ok, "{args:?} failed: {}", r.stderr);
	let got: Value = serde_json::from_str(&r.stdout).map_err(|e| format!("{e}: {:?}", r.stdout))?;
	let printed = got["mnemonic"].as_str().ok_or("no mnemonic printed")?.to_string();
	if c.fresh {
		ensure!(ref_mnemonic_ok(&printed), "new mnemonic {printed:?} is not valid");
	} else {
		ensure_eq!(printed, words, "mnemonic");
	}
	let (m, n, a) =
		(c.stacks.unwrap_or(true), net(c.bitcoin.unwrap_or(0)), c.accounts.unwrap_or(1));
	compare(&got, &document(&printed, m, n, a)).map_err(|e| format!("{args:?}: {e}"))?;
	if c.fresh {
		// regenerates the same document, and another run another wallet
		let mut again = generate_args(c);
		again.extend(["mnemonic".into(), printed.clone()]);
		let r2 = sbtc(&again);
		ensure_eq!(r2.stdout, r.stdout, "document regenerated from the new mnemonic");
		let r3 = sbtc(&args);
		let other: Value = serde_json::from_str(&r3.stdout).map_err(|e| e.to_string())?;
		ensure!(other["mnemonic"] != got["mnemonic"], "two new wallets have the same mnemonic");
	}
	Ok(Outcome::new(true)
		.label(if c.fresh { "new" } else { "mnemonic" })
		.label(if a > 254 { "more-than-254-accounts".into() } else { format!("{a}-accounts") })
		.label(n.to_string()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BadGenerate {
	Words(Words),
	Stacks(String),
	Bitcoin(String),
	Accounts(u8),
	NoCommand,
}

fn bad_generate() -> impl Strategy<Value = (GenerateRun, BadGenerate)> {
	let name = prop_oneof![
		Just("bitcoin".to_string()),
		Just("mainnet".to_string()),
		Just("regtest".to_string()),
		Just("testnet ".to_string()),
		Just("test".to_string()),
		"[a-z]{0,9}"
	];
	(
		generate_run(),
		prop_oneof![
			6 => words().prop_map(BadGenerate::Words),
			1 => name.clone().prop_map(BadGenerate::Stacks),
			1 => name.prop_map(BadGenerate::Bitcoin),
			1 => (0u8..NUMBERS.len() as u8).prop_map(BadGenerate::Accounts),
			1 => Just(BadGenerate::NoCommand),
		],
	)
}

fn bad_generate_check((c, b): &(GenerateRun, BadGenerate)) -> CheckResult {
	let mut c = c.clone();
	let words = ref_mnemonic(&c.entropy);
	let mut text = words.clone();
	let mut extra: Vec<String> = vec![];
	match b {
		BadGenerate::Words(w) => text = clean(&words_text(w)),
		BadGenerate::Stacks(s) => {
			if ["mainnet", "testnet"].contains(&s.to_lowercase().as_str()) {
				return Ok(Outcome::new(false).label("skipped"));
			}
			c.stacks = None;
			extra = vec!["-s".into(), s.clone()];
		}
		BadGenerate::Bitcoin(s) => {
			if NETS.iter().any(|n| n.to_string() == *s) {
				return Ok(Outcome::new(false).label("skipped"));
			}
			c.bitcoin = None;
			extra = vec!["-b".into(), s.clone()];
		}
		BadGenerate::Accounts(i) => {
			// too large for the option's type on every platform
			if NUMBERS[*i as usize] == "18446744073709551616" {
				return Ok(Outcome::new(false).label("skipped"));
			}
			c.accounts = None;
			extra = vec!["-a".into(), NUMBERS[*i as usize].into()];
		}
		BadGenerate::NoCommand => {}
	}
	let mut args = generate_args(&c);
	args.extend(extra);
	if !matches!(b, BadGenerate::NoCommand) {
		args.extend(["mnemonic".into(), text.clone()]);
	}
	let r = sbtc(&args);
	if let BadGenerate::Words(_) = b {
		if ref_mnemonic_ok(&text) {
			ensure!(r.ok, "{args:?} failed: {}", r.stderr);
			let got: Value = serde_json::from_str(&r.stdout).map_err(|e| e.to_string())?;
			let norm = text.split_whitespace().collect::<Vec<_>>().join(" ");
			let (m, n, a) =
				(c.stacks.unwrap_or(true), net(c.bitcoin.unwrap_or(0)), c.accounts.unwrap_or(1));
			compare(&got, &document(&norm, m, n, a)).map_err(|e| format!("{args:?}: {e}"))?;
			return Ok(Outcome::new(true).label("valid-words"));
		}
	}
	ensure!(!r.ok, "{args:?}: exit status 0, printed {:?}", r.stdout);
	ensure!(!r.stdout.contains("private_key"), "{args:?}: failed, but printed {:?}", r.stdout);
	Ok(Outcome::new(true).label(match b {
		BadGenerate::Words(_) => "bad-words",
		BadGenerate::Stacks(_) => "bad-stacks-network",
		BadGenerate::Bitcoin(_) => "bad-bitcoin-network",
		BadGenerate::Accounts(_) => "bad-accounts",
		BadGenerate::NoCommand => "no-command",
	}))
}

pub fn c23() -> Property {
	Property::new(
		"C23",
		"documents: entropy of 12 to 24 words or a new wallet, both networks (or the default), 0 to 12 accounts (now and then more than 254), order and spelling of options; the whole printed document is compared with an independent BIP39/BIP32/BIP341 implementation, and new wallets are regenerated (all non-trivial). refusals: edited or random mnemonics, unknown networks, malformed account counts; acceptance is that of an independent BIP39 implementation.",
	)
	.assume("the word list itself is the one of the bip39 crate; fields beyond the documented ones are not judged")
	.stage(Stage::new("documents", 3_000, 50_000, generate_run, generate_check).threads(16).attempts(3).shrink(150))
	.stage(Stage::new("refusals", 3_000, 60_000, bad_generate, bad_generate_check).threads(16).shrink(150))
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HexEdit {
	Upper,
	Mixed(Vec<bool>),
	Truncate(u16),
	Odd(u16),
	Insert(u16, char),
	Replace(u16, char),
	Trailing(Vec<u8>),
	Empty,
	Prefix,
	Free(String),
	FlipByte(u16, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BroadcastRun {
	version: i32,
	lock_time: u32,
	inputs: Vec<([u8; 32], u32, Vec<u8>, u32, Vec<Vec<u8>>)>,
	outputs: Vec<(u64, Vec<u8>)>,
	edit: Option<HexEdit>,
	refuse: Option<String>,
	fault: Option<Fault>,
}

/// What nodes say when they refuse a transaction.
const REFUSALS: [&str; 24] = [
	"bad-txns-inputs-missingorspent",
	"the transaction was rejected by network rules.\n\ndust",
	"the transaction was rejected by network rules.\n\ntxn-mempool-conflict\n[]",
	"Transaction already in block chain",
	"transaction already in block chain",
	"Transaction outputs already in utxo set",
	"txn-already-in-mempool",
	"txn-already-known",
	"txn-same-nonwitness-data-in-mempool",
	"txn-mempool-conflict",
	"Missing inputs",
	"missing-inputs",
	"insufficient fee, rejecting replacement",
	"min relay fee not met, 100 < 141",
	"mempool min fee not met",
	"mempool full",
	"too-long-mempool-chain, too many unconfirmed ancestors",
	"non-final",
	"non-BIP68-final",
	"non-mandatory-script-verify-flag (Witness program hash mismatch)",
	"Fee exceeds maximum configured by user (e.g. -maxtxfee, maxfeerate)",
	"excessive resource usage",
	"server busy - request timed out",
	"null",
];

fn broadcast_run() -> impl Strategy<Value = BroadcastRun> {
	let input = (
		any::<[u8; 32]>(),
		any::<u32>(),
		prop_oneof![2 => Just(vec![]), 1 => vec(any::<u8>(), 0..120)],
		any::<u32>(),
		prop_oneof![1 => Just(vec![]), 2 => vec(vec(any::<u8>(), 0..75), 0..4)],
	);
	let output = (amount_any(), prop_oneof![
		2 => addr().prop_map(|a| a.script()),
		1 => vec(any::<u8>(), 0..90),
		1 => vec(any::<u8>(), 0..75).prop_map(|d| op_return(&d)),
	]);
	let edit = prop_oneof![
		1 => Just(HexEdit::Upper),
		1 => vec(any::<bool>(), 1..9).prop_map(HexEdit::Mixed),
		2 => any::<u16>().prop_map(HexEdit::Truncate),
		1 => any::<u16>().prop_map(HexEdit::Odd),
		1 => (any::<u16>(), prop::char::range('g', 'z')).prop_map(|(i, c)| HexEdit::Insert(i, c)),
		1 => (any::<u16>(), prop_oneof![prop::char::range(' ', '~'), any::<char>()]).prop_map(|(i, c)| HexEdit::Replace(i, c)),
		2 => vec(any::<u8>(), 1..5).prop_map(HexEdit::Trailing),
		1 => Just(HexEdit::Empty),
		1 => Just(HexEdit::Prefix),
		1 => prop_oneof!["[0-9a-f]{0,200}", "\\PC{0,20}"].prop_map(HexEdit::Free),
		2 => (any::<u16>(), 1u8..=255).prop_map(|(i, x)| HexEdit::FlipByte(i, x)),
	];
	(
		(any::<i32>(), any::<u32>(), vec(input, 1..5), vec(output, 0..5)),
		prop::option::weighted(0.4, edit),
		prop::option::weighted(0.2, prop_oneof![
			6 => prop::sample::select(REFUSALS.to_vec()).prop_map(String::from),
			1 => "[ -~]{0,30}"
		]),
		prop::option::weighted(0.05, Just(Fault::Refuse)),
	)
		.prop_map(|((version, lock_time, inputs, outputs), edit, refuse, fault)| BroadcastRun {
			version,
			lock_time,
			inputs,
			outputs,
			edit,
			refuse,
			fault,
		})
}

fn broadcast_check(c: &BroadcastRun) -> CheckResult {
	let tx = Transaction {
		version: c.version,
		lock_time: PackedLockTime(c.lock_time),
		input: c
			.inputs
			.iter()
			.map(|(id, vout, sig, seq, wit)| TxIn {
				previous_output: OutPoint { txid: txid_of(*id), vout: *vout },
				script_sig: Script::from(sig.clone()),
				sequence: Sequence(*seq),
				witness: Witness::from_vec(wit.clone()),
			})
			.collect(),
		output: c
			.outputs
			.iter()
			.map(|(v, s)| TxOut { value: *v, script_pubkey: Script::from(s.clone()) })
			.collect(),
	};
	let mut bytes = serialize(&tx);
	let mut text = hex::encode(&bytes);
	match &c.edit {
		None => {}
		Some(HexEdit::Upper) => text = text.to_uppercase(),
		Some(HexEdit::Mixed(p)) => {
			text = text
				.chars()
				.enumerate()
				.map(|(i, ch)| if p[i % p.len()] { ch.to_ascii_uppercase() } else { ch })
				.collect()
		}
		Some(HexEdit::Truncate(k)) => text.truncate((*k as usize % (bytes.len() + 1)) * 2),
		Some(HexEdit::Odd(k)) => text.truncate((*k as usize % bytes.len()) * 2 + 1),
		Some(HexEdit::Insert(i, ch)) => text.insert(*i as usize % (text.len() + 1), *ch),
		Some(HexEdit::Replace(i, ch)) => {
			let k = *i as usize % text.len();
			text.replace_range(k..k + 1, &ch.to_string())
		}
		Some(HexEdit::Trailing(b)) => text += &hex::encode(b),
		Some(HexEdit::Empty) => text.clear(),
		Some(HexEdit::Prefix) => text = format!("0x{text}"),
		Some(HexEdit::Free(s)) => text = s.clone(),
		Some(HexEdit::FlipByte(i, x)) => {
			let n = bytes.len();
			bytes[*i as usize % n] ^= x;
			text = hex::encode(&bytes);
		}
	}
	let text = clean(&text);
	// the judge: hex of one whole transaction in its only encoding
	let decoded: Option<Transaction> =
		hex::decode(&text).ok().and_then(|b| deserialize::<Transaction>(&b).ok());
	let canonical = decoded.as_ref().map_or(true, |t| hex::encode(serialize(t)) == text.to_lowercase());
	if !canonical {
		// an encoding that another reader may refuse
		return Ok(Outcome::new(false).label("other-encoding"));
	}
	let server = Server::start(&Script::new(), Ledger::default(), c.fault.clone(), c.refuse.clone());
	let args = vec!["broadcast".to_string(), server.url.clone(), text.clone()];
	let r = sbtc(&args);
	let sent = server.broadcasts();
	let o = Outcome::new(true)
		.label_if(c.inputs.iter().any(|i| !i.4.is_empty()), "witness")
		.label_if(c.edit.is_some(), "edited");
	let Some(t) = decoded else {
		ensure!(!r.ok, "malformed {text:?}: exit status 0");
		ensure!(sent.is_empty(), "malformed {text:?}: sent {sent:?}");
		return Ok(o.label("malformed"));
	};
	let id = t.txid().to_string();
	if c.fault.is_some() {
		ensure!(!r.ok, "no server: exit status 0");
		ensure!(!r.stdout.contains(&id), "no server, but printed {:?}", r.stdout);
		return Ok(o.label("no-server"));
	}
	ensure_eq!(sent, vec![text.to_lowercase()], "transactions sent");
	if c.refuse.is_some() {
		ensure!(!r.ok, "refused by the node: exit status 0");
		ensure!(!r.stdout.contains(&id), "refused by the node, but printed {:?}", r.stdout);
		return Ok(o.label("refused"));
	}
	ensure!(r.ok, "accepted by the node: failed with {}", r.stderr);
	let got: Value = serde_json::from_str(&r.stdout).map_err(|e| format!("{e}: {:?}", r.stdout))?;
	ensure_eq!(got, json!(id), "printed id");
	ensure!(server.requests() >= 1, "no request");
	Ok(o.label("accepted"))
}

pub fn c24() -> Property {
	Property::new(
		"C24",
		"A case is a random transaction (1 to 4 inputs with and without witnesses, 0 to 4 outputs), in 40% of the cases an edit of its hex text (letter case, truncation, odd length, foreign characters, trailing bytes, flipped bytes, free text), and a node that accepts, refuses or does not listen. The program itself is run; what reached the fake node is compared with the given transaction (all non-trivial except texts with a non-canonical transaction encoding).",
	)
	.assume("rust-bitcoin's strict transaction decoder says which bytes are one whole transaction")
	.stage(Stage::new("run", 10_000, 300_000, broadcast_run, broadcast_check).threads(16).shrink(300))
}

fn main() {
	std::process::exit(vkit::main(vec![c21(), c22(), c23(), c24(), devnet::c35()]));
}
