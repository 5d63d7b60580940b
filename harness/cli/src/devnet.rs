//! C35: the devnet's scripts, run as they are, against a stand-in for `docker` that runs
//! the real `sbtc` program and records what reaches the Bitcoin node.
use std::{
	os::unix::fs::PermissionsExt,
	path::PathBuf,
	process::{Command, Stdio},
	sync::atomic::{AtomicU64, Ordering},
};

use bdk::bitcoin::{
	consensus::encode::deserialize,
	secp256k1::{PublicKey, Secp256k1},
	Network, Transaction,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use vcore::{gens::*, keys::*, ops::*, wallets::*};
use vkit::{ensure, ensure_eq, proptest, CheckResult, Outcome, Property, Stage};

use crate::{compare, document, no_transaction, server::*, Run, REFUSALS};

fn devenv() -> String {
	std::env::var("VERIF_DEVENV").unwrap_or_else(|_| "/repo/devenv".into())
}

/// The mnemonic the devnet's relayer runs with.
fn mnemonic() -> Result<String, String> {
	let text = std::fs::read_to_string(devenv() + "/sbtc/docker/config.json").map_err(|e| e.to_string())?;
	let v: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
	Ok(v["mnemonic"].as_str().ok_or("the relayer's configuration has no mnemonic")?.to_string())
}

struct Scratch(PathBuf);

impl Scratch {
	fn new() -> Self {
		static NEXT: AtomicU64 = AtomicU64::new(0);
		let n = NEXT.fetch_add(1, Ordering::SeqCst);
		let dir = std::env::temp_dir().join(format!("vdevnet-{}-{n}", std::process::id()));
		std::fs::create_dir_all(dir.join("bin")).unwrap_or_else(|e| {
			eprintln!("cannot make {dir:?}: {e}");
			std::process::exit(3)
		});
		Self(dir)
	}
}

impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

/// How a script is called.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Call {
	Absolute,
	/// from its own folder
	Inside,
	/// from the folder above
	Above,
	/// by the shell
	Shell,
}

fn call() -> impl Strategy<Value = Call> + Clone {
	prop::sample::select(vec![Call::Absolute, Call::Inside, Call::Above, Call::Shell])
}

struct Ran {
	run: Run,
	/// what was asked of the Bitcoin node's client, options aside
	node: Vec<Vec<String>>,
}

/// `url`: where the stand-in's `sbtc` finds the Electrum server; `down`: the container
/// does not run.
fn script(name: &str, call: Call, args: &[String], url: &str, down: bool) -> Ran {
	let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
	let s = Scratch::new();
	let stub = s.0.join("bin/docker");
	let log = s.0.join("log");
	let text = format!(
		r#"#!/bin/bash
[ "$1" = exec ] || exit 64
shift
while [[ "$1" == -* ]]; do shift; done
cmd=$2
shift 2
case "${{cmd##*/}}" in
sbtc)
	{down} && {{ echo "Error: No such container: sbtc" >&2; exit 1; }}
	set -- "${{@/#tcp:\/\/electrs:60401/electrs:60401}}"
	exec {dir}/target/debug/sbtc "${{@/#electrs:60401/{url}}}"
	;;
bitcoin-cli)
	{{ printf '%s\x1f' "$@"; printf '\n'; }} >>{log}
	echo '[ "00" ]'
	;;
*) exit 64 ;;
esac
"#,
		url = url.replace('/', "\\/"),
		down = if down { "true" } else { "false" },
		log = log.display(),
	);
	std::fs::write(&stub, text).unwrap();
	std::fs::set_permissions(&stub, std::fs::Permissions::from_mode(0o755)).unwrap();
	let mut c = Command::new("timeout");
	c.args(["-k", "5", "140"]);
	let utils = devenv() + "/utils";
	let (cwd, path) = match call {
		Call::Absolute => (s.0.display().to_string(), format!("{utils}/{name}")),
		Call::Inside | Call::Shell => (utils, format!("./{name}")),
		Call::Above => (format!("{utils}/.."), format!("utils/{name}")),
	};
	if let Call::Shell = call {
		c.arg("bash").arg(name);
	} else {
		c.arg(path);
	}
	let out = c
		.args(args)
		.current_dir(cwd)
		.env_clear()
		.env("PATH", format!("{}:/usr/local/bin:/usr/bin:/bin", s.0.join("bin").display()))
		.stdin(Stdio::null())
		.output()
		.unwrap_or_else(|e| {
			eprintln!("cannot run {name}: {e}");
			std::process::exit(3)
		});
	if let Some(124 | 125 | 137) = out.status.code() {
		eprintln!("{name}: {:?}", out.status);
		std::process::exit(3)
	}
	let node = std::fs::read_to_string(&log)
		.unwrap_or_default()
		.lines()
		.map(|l| {
			l.split('\x1f').filter(|a| !a.is_empty() && !a.starts_with('-')).map(String::from).collect()
		})
		.collect();
	Ran {
		run: Run {
			ok: out.status.success(),
			stdout: String::from_utf8_lossy(&out.stdout).into(),
			stderr: String::from_utf8_lossy(&out.stderr).into(),
		},
		node,
	}
}

// ---------------------------------------------------------------- payments

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Trouble {
	Server(Fault),
	/// the node refuses the transaction
	Refused(String),
	/// the container of the program does not run
	Down,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Payment {
	withdraw: bool,
	call: Call,
	history: History,
	trouble: Option<Trouble>,
}

fn payment() -> impl Strategy<Value = Payment> {
	let method = prop::sample::select(vec![
		"blockchain.scripthash.get_history",
		"blockchain.transaction.get",
		"blockchain.block.header",
		"blockchain.headers.subscribe",
	]);
	let trouble = prop_oneof![
		4 => method.prop_map(|m| Trouble::Server(Fault::Error(m.into()))),
		1 => Just(Trouble::Server(Fault::Refuse)),
		4 => prop::sample::select(REFUSALS.to_vec()).prop_map(|r| Trouble::Refused(r.into())),
		1 => Just(Trouble::Down),
	];
	(any::<bool>(), call(), history(), prop::option::weighted(0.3, trouble)).prop_map(
		|(withdraw, call, history, trouble)| Payment { withdraw, call, history, trouble },
	)
}

fn payment_check(c: &Payment) -> CheckResult {
	let n = Network::Regtest;
	let secp = Secp256k1::new();
	let words = mnemonic()?;
	let master = Xprv::master(&words);
	let key = |path: &[u32]| master.clone().path(path).key;
	let pay_key = key(&[H + 84, H + 1, H + 1, 0, 0]);
	let stacks_key = key(&[H + 44, H + 5757, H, 0, 1]);
	let wallet_key = key(&[H + 86, H + 1, H, 0, 0]);
	let public = |k| PublicKey::from_secret_key(&secp, k);
	let mut history = c.history.clone();
	history.key = pay_key.secret_bytes();
	let wallet = ref_p2tr(n, &public(&wallet_key)).script_pubkey().to_bytes();
	let wallet = Addr::Future(1, wallet[2..].to_vec());
	let payee = Addr::P2wpkh(h160(&public(&pay_key).serialize()));
	let account = Principal {
		version: 26,
		hash: h160(&public(&stacks_key).serialize()),
		contract: None,
	};

	let ledger = history.ledger();
	let coins = ledger.coins.clone();
	let (total, confirmed) = (ledger.total, ledger.confirmed);
	let mut o = Outcome::new(true)
		.label(if c.withdraw { "withdraw" } else { "deposit" })
		.label(format!("{:?}", c.call))
		.label_if(ledger.spent > 0, "spent-coins");
	let (fault, refuse, down) = match &c.trouble {
		None => (None, None, false),
		Some(Trouble::Server(f)) => (Some(f.clone()), None, false),
		Some(Trouble::Refused(r)) => (None, Some(r.clone()), false),
		Some(Trouble::Down) => (None, None, true),
	};
	let server = Server::start(&history.script(), ledger, fault, refuse.clone());
	let name = if c.withdraw { "withdraw.sh" } else { "deposit.sh" };
	let r = script(name, c.call, &[], &server.url, down);
	ensure!(r.node.is_empty(), "{name} asked the node for {:?}", r.node);
	let r = r.run;
	let sent = server.broadcasts();
	let most = if c.withdraw { 1_999 + payee.dust() } else { 9_999 };
	let least = if c.withdraw { 1_000 + payee.dust() } else { 1_000 };
	if sent.is_empty() {
		ensure!(!r.ok, "{name} broadcast nothing: exit status 0, printed {:?}", r.stdout);
		no_transaction(&r).map_err(|e| format!("{name}: {e}"))?;
		let why = if down {
			"container-down"
		} else if server.faults() > 0 {
			"server-fault"
		} else if total <= least {
			"unfunded"
		} else {
			ensure!(
				!surely_funded(confirmed, most, coins.len()),
				"{name} refused although it is fundable: {} {}",
				r.stdout,
				r.stderr
			);
			"barely-funded"
		};
		return Ok(o.label(why));
	}
	ensure!(!down && server.faults() == 0, "{name} broadcast {sent:?} in spite of the fault");
	ensure_eq!(sent.len(), 1, "transactions broadcast");
	let bytes = hex::decode(&sent[0]).map_err(|e| e.to_string())?;
	let tx: Transaction = deserialize(&bytes).map_err(|e| e.to_string())?;
	verify_spend(&tx, &coins, &history.key)?;
	ensure!(tx.output.len() >= 3 - (!c.withdraw) as usize, "{name}: {} outputs", tx.output.len());
	let script = history.script();
	if c.withdraw {
		let d = tx.output[0].script_pubkey.to_bytes();
		ensure!(d.len() >= 76, "data output has {} bytes", d.len());
		let amount = u64::from_be_bytes(d[d.len() - 73..d.len() - 65].try_into().unwrap());
		let fee = tx.output[2].value;
		ensure!((1_000..2_000).contains(&amount), "withdrawal of {amount}");
		ensure!((1_000..2_000).contains(&fee), "fulfillment fee of {fee}");
		let drawee = stacks_key.secret_bytes();
		withdrawal_layout(n, &tx, &drawee, &payee, &wallet, amount, fee, &script)?;
	} else {
		let amount = tx.output[1].value;
		ensure!((1_000..10_000).contains(&amount), "deposit of {amount}");
		deposit_layout(n, &tx, &account, &wallet, amount, &script)?;
	}
	if refuse.is_some() {
		ensure!(!r.ok, "{name}: refused by the node, exit status 0, printed {:?}", r.stdout);
		return Ok(o.label("refused"));
	}
	ensure!(r.ok, "{name} failed though its transaction was accepted: {}", r.stderr);
	let id = tx.txid().to_string();
	let last = r.stdout.lines().filter(|l| !l.trim().is_empty()).last().unwrap_or("").trim();
	ensure_eq!(last, id, "last line printed");
	o = o.label("accepted");
	Ok(o)
}

// ---------------------------------------------------------------- credentials, mining

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Other {
	call: Call,
	/// none: the credentials
	mine: Option<Option<u16>>,
}

fn other() -> impl Strategy<Value = Other> {
	(
		call(),
		prop_oneof![
			1 => Just(None),
			1 => Just(Some(None)),
			4 => (1u16..2_000).prop_map(|n| Some(Some(n))),
		],
	)
		.prop_map(|(call, mine)| Other { call, mine })
}

fn other_check(c: &Other) -> CheckResult {
	let words = mnemonic()?;
	let doc = document(&words, false, Network::Regtest, 2);
	let Some(mine) = &c.mine else {
		let r = script("get_credentials.sh", c.call, &[], "tcp://127.0.0.1:1", false);
		ensure!(r.run.ok, "get_credentials.sh failed: {}", r.run.stderr);
		let got: Value =
			serde_json::from_str(&r.run.stdout).map_err(|e| format!("{e}: {:?}", r.run.stdout))?;
		compare(&got, &doc)?;
		return Ok(Outcome::new(true).label("credentials"));
	};
	let args: Vec<String> = mine.iter().map(|n| n.to_string()).collect();
	let r = script("mine_btc.sh", c.call, &args, "tcp://127.0.0.1:1", false);
	let Some(blocks) = mine else {
		ensure!(!r.run.ok, "mine_btc.sh without a number: exit status 0");
		ensure!(r.node.is_empty(), "mine_btc.sh without a number: {:?}", r.node);
		return Ok(Outcome::new(true).label("no-number"));
	};
	ensure!(r.run.ok, "mine_btc.sh failed: {}", r.run.stderr);
	let to = |i: &str| doc["credentials"][i]["bitcoin"]["p2wpkh"]["address"].clone();
	let want = json!([
		["generatetoaddress", "1", to("0")],
		["generatetoaddress", blocks.to_string(), to("1")]
	]);
	ensure_eq!(json!(r.node), want, "blocks mined");
	Ok(Outcome::new(true).label("mined"))
}

pub fn c35() -> Property {
	Property::new(
		"C35",
		"payments: deposit.sh or withdraw.sh of the devnet, called in one of four ways, for a generated history of the payer's address (coins of several transactions, spent, unconfirmed and immature ones), in 30% of the cases with a failing Electrum server, a node that refuses the transaction or a container that does not run. others: get_credentials.sh and mine_btc.sh. The scripts themselves are run, docker being a stand-in that runs the real sbtc program; every case is non-trivial: what reached the fake node is judged, or that nothing did and the script failed.",
	)
	.assume("docker exec is replaced by a stand-in; its containers, images and networks are out of reach")
	.assume("the scripts draw amounts from the shell's own randomness; a case is one such draw")
	.stage(Stage::new("payments", 1_500, 30_000, payment, payment_check).threads(16).attempts(20).shrink(100))
	.stage(Stage::new("others", 300, 5_000, other, other_check).threads(16).attempts(3).shrink(50))
}
