//! C33: the relay's configuration file.
use crate::engine::net_name;
use bdk::bitcoin::{
	secp256k1::{PublicKey, Secp256k1},
	Network,
};
use proptest::{collection::vec, prelude::*};
use romeo::config::Config;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as Json};
use std::{
	path::{Path, PathBuf},
	sync::atomic::{AtomicU64, Ordering},
};
use url::Url;
use vcore::{
	gens::net,
	keys::{entropy, h160, ref_mnemonic, ref_mnemonic_ok, ref_p2pkh, ref_p2tr, ref_p2wpkh, words, words_text, Words, Xprv, H},
	text::ref_address,
};
use vkit::{ensure, ensure_eq, guard, CheckResult, Outcome, Property, Stage};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	entropy: Vec<u8>,
	/// other white space between the words
	gaps: Vec<u8>,
	mainnet: bool,
	net: u8,
	/// where the file is, and how it is called
	place: Vec<u8>,
	relative: bool,
	/// the state directory, from the root of the scratch directory or from the file
	state: Vec<u8>,
	absolute: bool,
	urls: [String; 3],
	name: String,
	api_key: Option<Option<String>>,
	strict: Option<Option<bool>>,
	/// order of the fields
	order: u64,
	bad: Option<Bad>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
	Missing(u8),
	Wrong(u8, u8),
	Words(Words),
	StacksNetwork(String),
	BitcoinNetwork(String),
	Url(u8, String),
	Name(String),
	Cut(u16),
	NoFile,
}

const PARTS: [&str; 8] = ["a", "state of the relay", "..", ".", ".hidden", "dé", "b.d", "a"];
const FIELDS: [&str; 8] = [
	"state_directory",
	"mnemonic",
	"stacks_network",
	"bitcoin_network",
	"stacks_node_url",
	"bitcoin_node_url",
	"electrum_node_url",
	"contract_name",
];

fn url() -> impl Strategy<Value = String> + Clone {
	(
		prop::sample::select(vec!["http", "https", "tcp", "ssl", "HTTP"]),
		prop::option::of("[a-z]{1,6}(:[a-zA-Z0-9]{1,9})?"),
		prop_oneof![
			"[a-z][a-z0-9-]{0,8}[a-z](\\.[a-z]{2,4}){0,2}",
			Just("127.0.0.1".into()),
			Just("[::1]".into()),
			Just("localhost".into())
		],
		prop::option::of(1u16..),
		prop_oneof![Just(String::new()), Just("/".into()), "(/[a-zA-Z0-9_.-]{1,6}){1,3}/?"],
	)
		.prop_map(|(scheme, user, host, port, path)| {
			format!(
				"{scheme}://{}{host}{}{path}",
				user.map(|u| u + "@").unwrap_or_default(),
				port.map(|p| format!(":{p}")).unwrap_or_default()
			)
		})
}

fn bad() -> impl Strategy<Value = Bad> + Clone {
	prop_oneof![
		2 => any::<u8>().prop_map(Bad::Missing),
		2 => (any::<u8>(), any::<u8>()).prop_map(|(i, k)| Bad::Wrong(i, k)),
		3 => words().prop_map(Bad::Words).boxed(),
		2 => prop::sample::select(vec!["", "main", "bitcoin", "signet", "regtest", "mainnet ", "testnet2", "mainnets", "simnet"]).prop_map(|s| Bad::StacksNetwork(s.into())),
		2 => prop::sample::select(vec!["", "main", "mainnet", "bitcoins", "testnet4", "simnet", " testnet"]).prop_map(|s| Bad::BitcoinNetwork(s.into())),
		2 => (any::<u8>(), prop::sample::select(vec!["", "localhost", "http://", "://x", "http://[::1", "/path", "http://a b/", "http://x:99999"])).prop_map(|(i, s)| Bad::Url(i, s.into())),
		1 => prop::sample::select(vec!["", "1a", "a b", "-a", "_", "a.b", "é", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]).prop_map(|s| Bad::Name(s.into())),
		2 => any::<u16>().prop_map(Bad::Cut),
		1 => Just(Bad::NoFile),
	]
}

fn case() -> impl Strategy<Value = Case> {
	let api = prop::option::of(prop::option::of(prop_oneof!["[a-f0-9]{32}", "\\PC{0,12}"]));
	(
		(entropy(), prop_oneof![3 => Just(vec![]), 1 => vec(0u8..4, 1..5)], any::<bool>(), 0u8..4),
		(vec(0u8..8, 0..4), any::<bool>(), vec(0u8..8, 1..4), any::<bool>()),
		(url(), url(), url()),
		prop_oneof![2 => Just("asset".to_string()), 3 => "[a-zA-Z][a-zA-Z0-9_-]{0,39}"],
		(api, prop::option::of(prop::option::of(any::<bool>())), any::<u64>(), prop::option::weighted(0.3, bad())),
	)
		.prop_map(|((entropy, gaps, mainnet, net), (place, relative, state, absolute), u, name, (api_key, strict, order, bad))| Case {
			entropy,
			gaps,
			mainnet,
			net,
			place,
			relative,
			state,
			absolute,
			urls: [u.0, u.1, u.2],
			name,
			api_key,
			strict,
			order,
			bad,
		})
}

fn parts(v: &[u8]) -> Vec<&'static str> {
	// never out of the scratch directory
	let mut depth = 0;
	v.iter()
		.map(|i| PARTS[*i as usize % 8])
		.filter(|p| {
			match *p {
				".." if depth == 0 => return false,
				".." => depth -= 1,
				"." => {}
				_ => depth += 1,
			}
			true
		})
		.collect()
}

struct Scratch(PathBuf);
impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

/// A directory whose path may contain dots.
fn make(path: &Path) -> Result<(), String> {
	let mut p = PathBuf::new();
	for c in path.components() {
		p.push(c);
		if !p.is_dir() {
			std::fs::create_dir(&p).map_err(|e| format!("{}: {e}", p.display()))?;
		}
	}
	Ok(())
}

fn check(c: &Case) -> CheckResult {
	static NEXT: AtomicU64 = AtomicU64::new(0);
	let root = std::env::temp_dir()
		.join(format!("vrelay-config-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
	let _scratch = Scratch(root.clone());
	let place = parts(&c.place).iter().fold(root.join("etc"), |p, x| p.join(x));
	make(&place)?;
	let file = place.join("config.json");

	let (n, mainnet) = (net(c.net), c.mainnet);
	let mut words = ref_mnemonic(&c.entropy);
	for g in &c.gaps {
		words = words.replacen(' ', ["  ", "\t", "\n", " "][*g as usize % 4], 1 + *g as usize);
	}
	let mut stacks_network = json!(if mainnet { "mainnet" } else { "testnet" });
	let mut bitcoin_network = json!(net_name(n));
	let mut urls = c.urls.clone();
	let mut name = c.name.clone();
	let mut refused = false;
	match &c.bad {
		Some(Bad::Words(w)) => {
			words = words_text(w);
			refused = !ref_mnemonic_ok(&words);
		}
		Some(Bad::StacksNetwork(s)) => (stacks_network, refused) = (json!(s), true),
		Some(Bad::BitcoinNetwork(s)) => (bitcoin_network, refused) = (json!(s), true),
		Some(Bad::Url(i, s)) => (urls[*i as usize % 3], refused) = (s.clone(), true),
		Some(Bad::Name(s)) => (name, refused) = (s.clone(), true),
		_ => {}
	}
	let state = parts(&c.state);
	let (text, directory) = if c.absolute || state.is_empty() {
		let d = state.iter().fold(root.join("var"), |p, x| p.join(x));
		(d.clone(), d)
	} else {
		(state.iter().collect(), state.iter().fold(place.clone(), |p, x| p.join(x)))
	};
	let mut fields: Vec<(&str, Json)> = vec![
		("state_directory", json!(text)),
		("mnemonic", json!(words)),
		("stacks_network", stacks_network),
		("bitcoin_network", bitcoin_network),
		("stacks_node_url", json!(urls[0])),
		("bitcoin_node_url", json!(urls[1])),
		("electrum_node_url", json!(urls[2])),
		("contract_name", json!(name)),
	];
	if let Some(k) = &c.api_key {
		fields.push(("hiro_api_key", json!(k)));
	}
	if let Some(s) = &c.strict {
		fields.push(("strict", json!(s)));
	}
	match &c.bad {
		Some(Bad::Missing(i)) => {
			fields.retain(|f| f.0 != FIELDS[*i as usize % 8]);
			refused = true;
		}
		Some(Bad::Wrong(i, k)) => {
			fields[*i as usize % 8].1 = [json!(null), json!(7), json!(["mainnet"]), json!({}), json!(true)][*k as usize % 5].clone();
			refused = true;
		}
		_ => {}
	}
	let mut r = c.order;
	for i in (1..fields.len()).rev() {
		fields.swap(i, (r % (i as u64 + 1)) as usize);
		r /= i as u64 + 1;
	}
	let mut json = fields.iter().map(|(k, v)| format!("{}: {v}", json!(k))).collect::<Vec<_>>().join(",\n");
	json = format!("{{{json}}}");
	if let Some(Bad::Cut(k)) = &c.bad {
		let mut k = *k as usize % json.len();
		while !json.is_char_boundary(k) {
			k -= 1;
		}
		json.truncate(k);
		refused = true;
	}
	if let Some(Bad::NoFile) = &c.bad {
		refused = true;
	} else {
		std::fs::write(&file, &json).map_err(|e| e.to_string())?;
	}
	let given = if c.relative {
		let cwd = std::env::current_dir().and_then(|d| d.canonicalize()).map_err(|e| e.to_string())?;
		let up: PathBuf = cwd.components().skip(1).map(|_| "..").collect();
		up.join(file.strip_prefix("/").map_err(|e| e.to_string())?)
	} else {
		file.clone()
	};

	// a configuration may also be refused with a panic: the relay does not start then either
	let got = guard(|| Config::from_path(&given).map_err(|e| e.to_string()));
	let o = Outcome::new(true).label(match (&c.bad, refused) {
		(None, _) => "valid",
		(_, false) => "valid other words",
		(_, true) => "invalid",
	});
	let got = match got {
		Ok(Ok(got)) => got,
		Ok(Err(e)) | Err(e) => {
			ensure!(refused, "refused: {e}");
			return Ok(o);
		}
	};
	ensure!(!refused, "accepted: {json}");
	let main = n == Network::Bitcoin;
	let norm = words.split_whitespace().collect::<Vec<_>>().join(" ");
	let master = Xprv::master(&norm);
	let secp = Secp256k1::new();
	let public = |k| PublicKey::from_secret_key(&secp, k);

	make(&directory)?;
	let real = |p: &Path| p.canonicalize().map_err(|e| format!("{}: {e}", p.display()));
	ensure!(got.state_directory.is_absolute(), "the state directory {:?} depends on where the relay is started", got.state_directory);
	ensure_eq!(real(&got.state_directory)?, real(&directory)?, "state directory");
	ensure_eq!(got.stacks_network, if mainnet { stacks_core::Network::Mainnet } else { stacks_core::Network::Testnet }, "Stacks network");
	ensure_eq!(got.bitcoin_network, n, "Bitcoin network");
	for (i, (is, want)) in [&got.stacks_node_url, &got.bitcoin_node_url, &got.electrum_node_url].iter().zip(&urls).enumerate() {
		let want = Url::parse(want).map_err(|e| format!("{want}: {e}"))?;
		ensure_eq!(is.as_str(), want.as_str(), "{}", FIELDS[4 + i]);
	}
	ensure_eq!(got.contract_name.to_string(), name, "contract name");
	ensure_eq!(got.hiro_api_key, c.api_key.clone().flatten(), "API key");
	ensure_eq!(got.strict, c.strict.flatten().unwrap_or(false), "strict");

	let stacks = master.path(&[H + 44, H + 5757, H, 0, 0]).key;
	let s = &got.stacks_credentials;
	ensure_eq!(s.private_key(), stacks, "Stacks key");
	ensure_eq!(
		s.address().to_string(),
		ref_address(if mainnet { 22 } else { 26 }, &h160(&public(&stacks).serialize())),
		"Stacks address"
	);
	let coin = H + u32::from(!main);
	let keys: Vec<_> = [44, 84, 86].iter().map(|p| master.path(&[H + p, coin, H, 0, 0]).key).collect();
	let b = &got.bitcoin_credentials;
	ensure_eq!(b.network(), n, "network of the Bitcoin credentials");
	ensure_eq!(b.private_key_p2pkh(), keys[0], "P2PKH key");
	ensure_eq!(b.private_key_p2wpkh(), keys[1], "P2WPKH key");
	ensure_eq!(b.private_key_p2tr(), keys[2], "P2TR key");
	ensure_eq!(b.address_p2pkh().to_string(), ref_p2pkh(main, &public(&keys[0])), "P2PKH address");
	ensure_eq!(b.address_p2wpkh().to_string(), ref_p2wpkh(n, &public(&keys[1])).to_string(), "P2WPKH address");
	ensure_eq!(got.sbtc_wallet_address().to_string(), ref_p2tr(n, &public(&keys[2])).to_string(), "sBTC wallet");
	Ok(o.label(format!("{n:?}")))
}

pub fn c33() -> Property {
	Property::new("C33", "always")
		.assume("the url crate says which texts are URLs; a configuration may be refused with an error or a panic")
		.stage(Stage::new("files", 6_000, 200_000, case, check).shrink(400))
}
