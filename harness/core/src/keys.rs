//! C17-C20: addresses from keys, WIF, wallets.
use std::str::FromStr;

use bdk::{
	bitcoin::{
		hashes::{hash160, hmac, sha256, sha256d, sha512, Hash, HashEngine, HmacEngine},
		secp256k1::{PublicKey, Scalar, Secp256k1, SecretKey, XOnlyPublicKey},
		Address, Network as BitcoinNetwork,
	},
	keys::bip39::Language,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use stacks_core::{
	address::StacksAddress,
	crypto::wif::WIF,
	wallet::{BitcoinCredentials, Credentials, Wallet},
	Network,
};
use vkit::{ensure, ensure_eq, CheckResult, Outcome, Property, Stage};

use crate::{gens::*, text::ref_address};

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KeySet {
	version: u8,
	keys: Vec<[u8; 32]>,
	threshold: u16,
}

fn key_set() -> impl Strategy<Value = KeySet> {
	(
		version(),
		prop_oneof![3 => vec(seed32(), 1..=15), 1 => vec(seed32(), 15), 1 => vec(seed32(), 16..=20), 1 => vec(seed32(), 17..=40), 1 => (seed32(), 2usize..=40).prop_map(|(k, n)| vec![k; n])],
		any::<u16>(),
	)
		.prop_map(|(version, keys, threshold)| KeySet { version, keys, threshold })
}

pub fn h160(b: &[u8]) -> [u8; 20] {
	hash160::Hash::hash(b).into_inner()
}

fn key_set_check(c: &KeySet) -> CheckResult {
	let keys: Vec<PublicKey> = c.keys.iter().map(pk).collect();
	let m = c.threshold as usize % keys.len() + 1;
	let version = Principal { version: c.version, hash: [0; 20], contract: None }.version();
	let first = keys[0].serialize();
	// <m> <key>... <n> CHECKMULTISIG
	let number = |n: usize| if n <= 16 { vec![0x50 + n as u8] } else { vec![1, n as u8] };
	let mut multisig = number(m);
	for k in &keys {
		multisig.push(33);
		multisig.extend(k.serialize());
	}
	multisig.extend(number(keys.len()));
	multisig.push(0xae);
	let mut wpkh = vec![0, 20];
	wpkh.extend(h160(&first));
	let mut wsh = vec![0, 32];
	wsh.extend(sha256::Hash::hash(&multisig).into_inner());
	let is = |what: &str, a: StacksAddress, want: [u8; 20]| -> Result<(), String> {
		ensure_eq!(a.version() as u8, c.version, "{what}: version");
		ensure_eq!(hex::encode(a.hash()), hex::encode(want), "{what}: hash");
		Ok(())
	};
	is("p2pkh", StacksAddress::p2pkh(version, &keys[0]), h160(&first))?;
	is("from_public_key", StacksAddress::from_public_key(version, &keys[0]), h160(&first))?;
	is("p2wpkh", StacksAddress::p2wpkh(version, &keys[0]), h160(&wpkh))?;
	is("p2sh", StacksAddress::p2sh(version, &keys, m), h160(&multisig))?;
	is("p2wsh", StacksAddress::p2wsh(version, &keys, m), h160(&wsh))?;
	// in another order the scripts differ
	if keys.windows(2).any(|w| w[0] != w[1]) {
		let rev: Vec<PublicKey> = keys.iter().rev().copied().collect();
		if rev != keys {
			ensure!(
				StacksAddress::p2sh(version, &rev, m) != StacksAddress::p2sh(version, &keys, m),
				"p2sh ignores the order of keys"
			);
		}
	}
	Ok(Outcome::new(true)
		.label(if keys.len() == 1 { "one-key" } else { "several-keys" })
		.label_if(keys.len() == 15, "15-keys")
		.label_if(keys.len() > 16, "over-16-keys")
		.label_if(m == keys.len() && m > 1, "all-of-n"))
}

pub fn c17() -> Property {
	Property::new(
		"C17",
		"A case is a version, 1 to 40 keys (also repeated ones) and a threshold between 1 and their number; every case is non-trivial. Scripts are assembled byte by byte and hashed with rust-bitcoin.",
	)
	.assume("1 to 40 keys: CHECKMULTISIG takes no more than 20")
	.stage(Stage::new("scripts", 40_000, 1_500_000, key_set, key_set_check))
}

// ---------------------------------------------------------------- base58

const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

pub fn b58_encode(b: &[u8]) -> String {
	let zeros = b.iter().take_while(|x| **x == 0).count();
	let mut digits: Vec<u8> = vec![];
	for x in b {
		let mut carry = *x as u32;
		for d in digits.iter_mut() {
			let v = *d as u32 * 256 + carry;
			*d = (v % 58) as u8;
			carry = v / 58;
		}
		while carry > 0 {
			digits.push((carry % 58) as u8);
			carry /= 58;
		}
	}
	let mut s = "1".repeat(zeros);
	s.extend(digits.iter().rev().map(|d| B58[*d as usize] as char));
	s
}

pub fn b58_decode(s: &str) -> Option<Vec<u8>> {
	let mut bytes: Vec<u8> = vec![];
	for c in s.chars() {
		let mut carry = B58.iter().position(|b| *b as char == c)? as u32;
		for b in bytes.iter_mut() {
			let v = *b as u32 * 58 + carry;
			*b = v as u8;
			carry = v >> 8;
		}
		while carry > 0 {
			bytes.push(carry as u8);
			carry >>= 8;
		}
	}
	bytes.extend(s.chars().take_while(|c| *c == '1').map(|_| 0));
	bytes.reverse();
	Some(bytes)
}

fn with_checksum(b: &[u8]) -> Vec<u8> {
	let mut v = b.to_vec();
	v.extend(&sha256d::Hash::hash(b)[..4]);
	v
}

pub fn ref_wif(mainnet: bool, key: &SecretKey) -> String {
	b58_encode(&wif_bytes(mainnet, &key.secret_bytes()))
}

/// The WIF of a key whose public key is used in its uncompressed form.
pub fn ref_wif_uncompressed(mainnet: bool, key: &SecretKey) -> String {
	let mut v = vec![if mainnet { 128 } else { 239 }];
	v.extend(key.secret_bytes());
	b58_encode(&with_checksum(&v))
}

fn wif_bytes(mainnet: bool, key: &[u8; 32]) -> Vec<u8> {
	let mut v = vec![if mainnet { 128 } else { 239 }];
	v.extend(key);
	v.push(1);
	with_checksum(&v)
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WifCase {
	key: [u8; 32],
	mainnet: bool,
}

fn network(mainnet: bool) -> Network {
	if mainnet {
		Network::Mainnet
	} else {
		Network::Testnet
	}
}

fn wif_check(c: &WifCase) -> CheckResult {
	let key = sk(&c.key);
	let n = network(c.mainnet);
	let text = WIF::new(n, key).to_string();
	ensure_eq!(text, ref_wif(c.mainnet, &key), "WIF text");
	let other = bdk::bitcoin::PrivateKey::from_wif(&text)
		.map_err(|e| format!("rust-bitcoin refuses {text}: {e}"))?;
	ensure_eq!(other.inner, key, "key read by rust-bitcoin");
	ensure!(other.compressed, "rust-bitcoin reads an uncompressed key");
	ensure_eq!(other.network == BitcoinNetwork::Bitcoin, c.mainnet, "network read by rust-bitcoin");
	let bn = if c.mainnet { BitcoinNetwork::Bitcoin } else { BitcoinNetwork::Testnet };
	let theirs = bdk::bitcoin::PrivateKey::new(key, bn).to_wif();
	for (how, w) in [
		("own text", WIF::try_from(text.clone())),
		("rust-bitcoin's text", WIF::try_from(theirs)),
		("bytes", WIF::from_bytes(b58_decode(&text).unwrap())),
	] {
		let w = w.map_err(|e| format!("{how} refused: {e}"))?;
		ensure_eq!(w.private_key().map_err(|e| e.to_string())?, key, "{how}: key");
		ensure_eq!(w.network().map_err(|e| e.to_string())?, n, "{how}: network");
		ensure_eq!(w.to_string(), text, "{how}: text again");
	}
	Ok(Outcome::new(true).label(if c.mainnet { "mainnet" } else { "testnet" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WifInput {
	/// prefix, key bytes, compression byte, extra bytes before the checksum, change
	/// of the checksum, change of one byte, cut
	Parts {
		prefix: u8,
		key: [u8; 32],
		comp: u8,
		extra: Vec<u8>,
		no_comp: bool,
		sum: Option<(u8, u8)>,
		flip: Option<(u8, u8)>,
		cut: Option<u8>,
	},
	Bytes(Vec<u8>),
	/// canonical text with edits
	Text(WifCase, Vec<(u16, char)>, Option<u16>, bool),
	Free(String),
}

fn bad_key() -> impl Strategy<Value = [u8; 32]> + Clone {
	let order: [u8; 32] =
		hex::decode("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
			.unwrap()
			.try_into()
			.unwrap();
	prop_oneof![
		1 => Just([0u8; 32]),
		1 => Just([0xff; 32]),
		3 => (-1i16..=3).prop_map(move |d| { let mut o = order; o[31] = (0x41 + d) as u8; o }),
	]
}

fn wif_input() -> impl Strategy<Value = WifInput> {
	let parts = (
		prop_oneof![6 => prop::sample::select(vec![128u8, 239]), 1 => any::<u8>()],
		prop_oneof![6 => seed32().prop_map(|s| sk(&s).secret_bytes()).boxed(), 2 => bad_key().boxed()],
		prop_oneof![6 => Just(1u8), 1 => Just(0), 1 => any::<u8>()],
		prop_oneof![8 => Just(vec![]), 1 => vec(any::<u8>(), 1..4)],
		prop::bool::weighted(0.05),
		prop::option::weighted(0.15, (0u8..4, 1u8..=255)),
		prop::option::weighted(0.1, (0u8..38, 1u8..=255)),
		prop::option::weighted(0.05, 0u8..38),
	)
		.prop_map(|(prefix, key, comp, extra, no_comp, sum, flip, cut)| WifInput::Parts {
			prefix,
			key,
			comp,
			extra,
			no_comp,
			sum,
			flip,
			cut,
		});
	let ch = prop_oneof![
		6 => prop::sample::select(B58.iter().map(|b| *b as char).collect::<Vec<_>>()),
		1 => prop::char::range(' ', '~'),
		1 => any::<char>(),
	];
	prop_oneof![
		8 => parts,
		1 => vec(any::<u8>(), 0..60).prop_map(WifInput::Bytes),
		1 => vec(any::<u8>(), 38).prop_map(WifInput::Bytes),
		1 => ((seed32(), any::<bool>()).prop_map(|(key, mainnet)| WifCase { key, mainnet }), "[ \n\t\r\0\u{b}\u{a0}\u{feff}1]{0,2}", "[ \n\t\r\0=\u{a0}\u{feff}]{0,2}")
			.prop_map(|(c, a, b)| WifInput::Free(format!("{a}{}{b}", ref_wif(c.mainnet, &sk(&c.key))))),
		6 => ((seed32(), any::<bool>()).prop_map(|(key, mainnet)| WifCase { key, mainnet }), vec((any::<u16>(), ch), 0..3), prop::option::weighted(0.2, any::<u16>()), prop::bool::weighted(0.1))
			.prop_map(|(c, e, s, i)| WifInput::Text(c, e, s, i)),
		1 => "[1-9A-HJ-NP-Za-km-z]{0,60}".prop_map(WifInput::Free),
		1 => "\\PC{0,60}".prop_map(WifInput::Free),
	]
}

fn ref_wif_parse(b: &[u8]) -> Option<(bool, SecretKey)> {
	if b.len() != 38 || b[33] != 1 || !(b[0] == 128 || b[0] == 239) {
		return None;
	}
	if with_checksum(&b[..34]) != b {
		return None;
	}
	// 0 < key < group order
	Some((b[0] == 128, SecretKey::from_slice(&b[1..33]).ok()?))
}

fn wif_input_check(c: &WifInput) -> CheckResult {
	let (bytes, text): (Option<Vec<u8>>, String) = match c {
		WifInput::Parts { prefix, key, comp, extra, no_comp, sum, flip, cut } => {
			let mut v = vec![*prefix];
			v.extend(key);
			if !no_comp {
				v.push(*comp);
			}
			v.extend(extra);
			let mut v = with_checksum(&v);
			if let Some((i, d)) = sum {
				let n = v.len();
				v[n - 4 + *i as usize] ^= d;
			}
			if let Some((i, d)) = flip {
				let n = v.len();
				v[*i as usize % n] ^= d;
			}
			if let Some(k) = cut {
				v.truncate(*k as usize);
			}
			let t = b58_encode(&v);
			(Some(v), t)
		}
		WifInput::Bytes(b) => (Some(b.clone()), b58_encode(b)),
		WifInput::Text(w, edits, swap, insert) => {
			let mut t: Vec<char> = ref_wif(w.mainnet, &sk(&w.key)).chars().collect();
			for (i, ch) in edits {
				let n = t.len();
				if *insert {
					t.insert(*i as usize % (n + 1), *ch);
				} else {
					t[*i as usize % n] = *ch;
				}
			}
			if let Some(s) = swap {
				let n = t.len();
				let k = *s as usize % (n - 1);
				t.swap(k, k + 1);
			}
			let t: String = t.into_iter().collect();
			(b58_decode(&t), t)
		}
		WifInput::Free(s) => (b58_decode(s), s.clone()),
	};
	let want = bytes.as_deref().and_then(ref_wif_parse);
	let same = |how: &str, got: Result<WIF, stacks_core::StacksError>| -> Result<(), String> {
		match got {
			Ok(w) => {
				let k = w.private_key().map_err(|e| format!("{how}: accepted without key: {e}"))?;
				let n = w.network().map_err(|e| format!("{how}: accepted without network: {e}"))?;
				ensure_eq!(Some((n == Network::Mainnet, k)), want, "{how} {text:?}");
			}
			Err(e) => ensure!(want.is_none(), "{how} {text:?} refused: {e}"),
		}
		Ok(())
	};
	same("text", WIF::try_from(text.clone()))?;
	if let Some(b) = &bytes {
		same("bytes", WIF::from_bytes(b))?;
	}
	Ok(Outcome::new(bytes.as_ref().is_some_and(|b| b.len() > 4))
		.label(if want.is_some() { "valid" } else { "refused" })
		.label_if(bytes.as_ref().is_some_and(|b| b.len() == 38), "38-bytes"))
}

pub fn c18() -> Property {
	Property::new(
		"C18",
		"keys: any private key and network (all non-trivial), against an independent encoder and rust-bitcoin in both directions; input: WIF bytes assembled from parts any of which may be off (prefix, key out of range, compression byte, length, checksum), canonical texts with edits, arbitrary bytes and text (non-trivial when they decode to more than four bytes).",
	)
	.stage(Stage::new("keys", 120_000, 3_000_000, || (seed32(), any::<bool>()).prop_map(|(key, mainnet)| WifCase { key, mainnet }), wif_check))
	.stage(Stage::new("input", 400_000, 10_000_000, wif_input, wif_input_check))
}

// ---------------------------------------------------------------- C19

fn hmac512(key: &[u8], data: &[&[u8]]) -> [u8; 64] {
	let mut e = HmacEngine::<sha512::Hash>::new(key);
	for d in data {
		e.input(d);
	}
	hmac::Hmac::<sha512::Hash>::from_engine(e).into_inner()
}

fn pbkdf2(password: &[u8], salt: &[u8]) -> [u8; 64] {
	let mut u = hmac512(password, &[salt, &[0, 0, 0, 1]]);
	let mut out = u;
	for _ in 1..2048 {
		u = hmac512(password, &[&u]);
		for (o, x) in out.iter_mut().zip(u) {
			*o ^= x;
		}
	}
	out
}

/// BIP39 words of the entropy.
pub fn ref_mnemonic(entropy: &[u8]) -> String {
	let sum = sha256::Hash::hash(entropy)[0];
	let mut bits: Vec<bool> = entropy.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect();
	let cs = entropy.len() / 4;
	bits.extend((0..cs).map(|i| sum >> (7 - i) & 1 == 1));
	let list = Language::English.word_list();
	bits.chunks(11)
		.map(|c| list[c.iter().fold(0usize, |a, b| a << 1 | *b as usize)])
		.collect::<Vec<_>>()
		.join(" ")
}

/// Whether words form a valid English BIP39 mnemonic.
fn ref_mnemonic_valid(words: &[&str]) -> bool {
	if ![12, 15, 18, 21, 24].contains(&words.len()) {
		return false;
	}
	let list = Language::English.word_list();
	let mut bits = vec![];
	for w in words {
		let Some(i) = list.iter().position(|x| x == w) else { return false };
		bits.extend((0..11).rev().map(|b| i >> b & 1 == 1));
	}
	let ent = words.len() * 11 * 32 / 33;
	let bytes: Vec<u8> =
		bits[..ent].chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | *b as u8)).collect();
	let sum = sha256::Hash::hash(&bytes)[0];
	(0..ent / 32).all(|i| bits[ent + i] == (sum >> (7 - i) & 1 == 1))
}

#[derive(Clone, Copy)]
pub struct Xprv {
	pub key: SecretKey,
	chain: [u8; 32],
}

pub const H: u32 = 1 << 31;

impl Xprv {
	pub fn master(mnemonic: &str) -> Self {
		let seed = pbkdf2(mnemonic.as_bytes(), b"mnemonic");
		let i = hmac512(b"Bitcoin seed", &[&seed]);
		Self { key: SecretKey::from_slice(&i[..32]).unwrap(), chain: i[32..].try_into().unwrap() }
	}
	pub fn path(mut self, path: &[u32]) -> Self {
		let secp = Secp256k1::new();
		for n in path {
			let i = if n & H != 0 {
				hmac512(&self.chain, &[&[0], &self.key.secret_bytes(), &n.to_be_bytes()])
			} else {
				let p = PublicKey::from_secret_key(&secp, &self.key).serialize();
				hmac512(&self.chain, &[&p, &n.to_be_bytes()])
			};
			let t = Scalar::from_be_bytes(i[..32].try_into().unwrap()).unwrap();
			self = Self { key: self.key.add_tweak(&t).unwrap(), chain: i[32..].try_into().unwrap() };
		}
		self
	}
}

pub fn ref_p2pkh(mainnet: bool, p: &PublicKey) -> String {
	let mut v = vec![if mainnet { 0 } else { 111 }];
	v.extend(h160(&p.serialize()));
	b58_encode(&with_checksum(&v))
}

pub fn ref_p2wpkh(n: BitcoinNetwork, p: &PublicKey) -> Address {
	Addr::P2wpkh(h160(&p.serialize())).build(n)
}

pub fn ref_p2tr(n: BitcoinNetwork, p: &PublicKey) -> Address {
	// BIP341: output key = internal key + H_TapTweak(internal key)
	let x = p.x_only_public_key().0;
	let tag = sha256::Hash::hash(b"TapTweak");
	let mut e = sha256::Hash::engine();
	e.input(&tag);
	e.input(&tag);
	e.input(&x.serialize());
	let t = Scalar::from_be_bytes(sha256::Hash::from_engine(e).into_inner()).unwrap();
	let (q, _): (XOnlyPublicKey, _) = x.add_tweak(&Secp256k1::new(), &t).unwrap();
	Address {
		payload: bdk::bitcoin::util::address::Payload::WitnessProgram {
			version: bdk::bitcoin::util::address::WitnessVersion::V1,
			program: q.serialize().to_vec(),
		},
		network: n,
	}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WalletCase {
	entropy: Vec<u8>,
	index: u32,
	net: u8,
	mainnet: bool,
}

pub fn entropy() -> impl Strategy<Value = Vec<u8>> + Clone {
	prop::sample::select(vec![16usize, 20, 24, 28, 32]).prop_flat_map(|n| {
		prop_oneof![8 => vec(any::<u8>(), n), 1 => Just(vec![0; n]), 1 => Just(vec![0xff; n])]
	})
}

fn index() -> impl Strategy<Value = u32> + Clone {
	prop_oneof![
		4 => 0u32..20,
		3 => 0..H,
		1 => H - 3..H,
		1 => H..=H + 3,
		1 => H..=u32::MAX,
	]
}

fn wallet_case() -> impl Strategy<Value = WalletCase> {
	(entropy(), index(), 0u8..4, any::<bool>())
		.prop_map(|(entropy, index, net, mainnet)| WalletCase { entropy, index, net, mainnet })
}

fn wallet_check(c: &WalletCase) -> CheckResult {
	let words = ref_mnemonic(&c.entropy);
	let w = Wallet::new(&words).map_err(|e| format!("mnemonic refused: {e}"))?;
	ensure_eq!(w.mnemonic().to_string(), words, "mnemonic");
	let master = Xprv::master(&words);
	ensure_eq!(w.master_key(), master.key, "master key");
	let n = network(c.mainnet);
	ensure_eq!(w.wif(n).to_string(), ref_wif(c.mainnet, &master.key), "wallet WIF");
	let bn = net(c.net);
	let secp = Secp256k1::new();
	let o = Outcome::new(true).label(format!("{}-words", words.split(' ').count()));
	let (s, b) = (w.credentials(n, c.index), w.bitcoin_credentials(bn, c.index));
	if c.index >= H {
		ensure!(s.is_err(), "Stacks credentials for index {}", c.index);
		ensure!(b.is_err(), "Bitcoin credentials for index {}", c.index);
		return Ok(o.label("index-out-of-range"));
	}
	let s = s.map_err(|e| format!("Stacks credentials refused: {e}"))?;
	let k = master.path(&[H + 44, H + 5757, H, 0, c.index]).key;
	let p = PublicKey::from_secret_key(&secp, &k);
	ensure_eq!(s.private_key(), k, "Stacks private key");
	ensure_eq!(s.public_key(), p, "Stacks public key");
	ensure_eq!(s.network(), n, "Stacks network");
	ensure_eq!(
		s.address().to_string(),
		ref_address(if c.mainnet { 22 } else { 26 }, &h160(&p.serialize())),
		"Stacks address"
	);
	ensure_eq!(s.wif().to_string(), ref_wif(c.mainnet, &k), "Stacks WIF");

	let b = b.map_err(|e| format!("Bitcoin credentials refused: {e}"))?;
	let main = bn == BitcoinNetwork::Bitcoin;
	let coin = H + if main { 0 } else { 1 };
	ensure_eq!(b.network(), bn, "Bitcoin network");
	let keys: Vec<SecretKey> =
		[44, 84, 86].iter().map(|p| master.path(&[H + p, coin, H + c.index, 0, 0]).key).collect();
	let pubs: Vec<PublicKey> = keys.iter().map(|k| PublicKey::from_secret_key(&secp, k)).collect();
	ensure_eq!(b.private_key_p2pkh(), keys[0], "P2PKH private key");
	ensure_eq!(b.private_key_p2wpkh(), keys[1], "P2WPKH private key");
	ensure_eq!(b.private_key_p2tr(), keys[2], "P2TR private key");
	ensure_eq!(b.public_key_p2pkh(), pubs[0], "P2PKH public key");
	ensure_eq!(b.public_key_p2wpkh(), pubs[1], "P2WPKH public key");
	ensure_eq!(b.public_key_p2tr(), pubs[2], "P2TR public key");
	ensure_eq!(b.address_p2pkh().to_string(), ref_p2pkh(main, &pubs[0]), "P2PKH address");
	ensure_eq!(
		b.address_p2wpkh().to_string(),
		ref_p2wpkh(bn, &pubs[1]).to_string(),
		"P2WPKH address"
	);
	ensure_eq!(b.address_p2tr().to_string(), ref_p2tr(bn, &pubs[2]).to_string(), "P2TR address");
	ensure_eq!(b.wif_p2pkh().to_string(), ref_wif(main, &keys[0]), "P2PKH WIF");
	ensure_eq!(b.wif_p2wpkh().to_string(), ref_wif(main, &keys[1]), "P2WPKH WIF");
	ensure_eq!(b.wif_p2tr().to_string(), ref_wif(main, &keys[2]), "P2TR WIF");
	Ok(o.label(format!("{bn:?}")))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Words {
	/// words of the entropy, with replacements, a swap, a cut, an extra word
	Edited { entropy: Vec<u8>, replace: Vec<(u8, u16)>, swap: Option<u8>, cut: Option<u8>, extra: Option<u16>, foreign: Option<(u8, String)> },
	List(Vec<u16>),
	Free(String),
}

pub fn words() -> impl Strategy<Value = Words> {
	prop_oneof![
		8 => (
			entropy(),
			prop_oneof![2 => Just(vec![]), 3 => vec((any::<u8>(), 0u16..2048), 1..3)],
			prop::option::weighted(0.3, any::<u8>()),
			prop::option::weighted(0.15, any::<u8>()),
			prop::option::weighted(0.1, 0u16..2048),
			prop::option::weighted(0.1, (any::<u8>(), prop_oneof!["[a-z]{1,8}", "[A-Z]{3}", "\\PC{1,5}"])),
		)
			.prop_map(|(entropy, replace, swap, cut, extra, foreign)| Words::Edited { entropy, replace, swap, cut, extra, foreign }),
		2 => prop::sample::select(vec![12usize, 15, 18, 21, 24]).prop_flat_map(|n| vec(0u16..2048, n)).prop_map(Words::List),
		1 => vec(0u16..2048, 0..30).prop_map(Words::List),
		1 => "\\PC{0,60}".prop_map(Words::Free),
	]
}

pub fn words_text(c: &Words) -> String {
	let list = Language::English.word_list();
	match c {
		Words::Edited { entropy, replace, swap, cut, extra, foreign } => {
			let m = ref_mnemonic(entropy);
			let mut w: Vec<String> = m.split(' ').map(String::from).collect();
			for (i, x) in replace {
				let n = w.len();
				w[*i as usize % n] = list[*x as usize].into();
			}
			if let Some(i) = swap {
				let k = *i as usize % (w.len() - 1);
				w.swap(k, k + 1);
			}
			if let Some(k) = cut {
				let n = w.len();
				w.truncate(*k as usize % n);
			}
			if let Some(x) = extra {
				w.push(list[*x as usize].into());
			}
			if let (Some((i, f)), false) = (foreign, w.is_empty()) {
				let n = w.len();
				w[*i as usize % n] = f.clone();
			}
			w.join(" ")
		}
		Words::List(v) => v.iter().map(|i| list[*i as usize]).collect::<Vec<_>>().join(" "),
		Words::Free(s) => s.clone(),
	}
}

/// Words separated by white space, as every BIP39 implementation reads them.
pub fn ref_mnemonic_ok(text: &str) -> bool {
	let w: Vec<&str> = text.split_whitespace().collect();
	ref_mnemonic_valid(&w)
}

fn words_check(c: &Words) -> CheckResult {
	let text = words_text(c);
	let want = ref_mnemonic_ok(&text);
	match Wallet::new(&text) {
		Ok(w) => {
			ensure!(want, "{text:?} accepted");
			let norm = text.split_whitespace().collect::<Vec<_>>().join(" ");
			ensure_eq!(w.mnemonic().to_string(), norm, "mnemonic kept");
			ensure_eq!(w.master_key(), Xprv::master(&norm).key, "master key");
		}
		Err(e) => ensure!(!want, "{text:?} refused: {e}"),
	}
	Ok(Outcome::new(text.split_whitespace().count() > 1).label(if want { "valid" } else { "invalid" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Draws(u8);

/// New wallets: 24 words, and every bit of their entropy is drawn anew.
fn draws_check(c: &Draws) -> CheckResult {
	let n = 64 + c.0 as usize % 16;
	let (mut ones, mut zeros) = ([0u8; 32], [0u8; 32]);
	let mut seen = std::collections::HashSet::new();
	for _ in 0..n {
		let w = Wallet::random().map_err(|e| format!("no random wallet: {e}"))?;
		let text = w.mnemonic().to_string();
		let words: Vec<&str> = text.split(' ').collect();
		ensure_eq!(words.len(), 24, "words of a new wallet");
		ensure!(ref_mnemonic_valid(&words), "invalid mnemonic {text:?}");
		let entropy = w.mnemonic().to_entropy();
		ensure_eq!(entropy.len(), 32, "entropy of a new wallet");
		for (i, b) in entropy.iter().enumerate() {
			ones[i] |= b;
			zeros[i] |= !b;
		}
		ensure!(seen.insert(entropy), "a wallet was made twice");
		ensure_eq!(w.master_key(), Xprv::master(&text).key, "master key");
	}
	// an honest bit stays constant with a chance of 2^-63
	for i in 0..32 {
		ensure_eq!(ones[i] & zeros[i], 0xff, "bits of entropy byte {i} that took both values in {n} new wallets");
	}
	Ok(Outcome::new(true))
}

pub fn c19() -> Property {
	Property::new(
		"C19",
		"credentials: entropy of 12 to 24 words, account index (small, any, at and beyond 2^31), both networks (all non-trivial), against an independent BIP39/BIP32/BIP341 implementation; mnemonics: word lists with replaced, swapped, missing, additional or foreign words, random word lists, arbitrary text (non-trivial when more than one word), against an independent checksum; new: 64 to 79 new random wallets each (all non-trivial), whose 256 bits of entropy must all vary.",
	)
	.assume("the word list itself is the one of the bip39 crate")
	.stage(Stage::new("credentials", 6_000, 200_000, wallet_case, wallet_check).shrink(300))
	.stage(Stage::new("mnemonics", 40_000, 1_000_000, words, words_check).shrink(300))
	.stage(Stage::new("new", 60, 2_000, || any::<u8>().prop_map(Draws), draws_check).shrink(20))
}

// ---------------------------------------------------------------- C20

fn stacks_view(c: &Credentials) -> String {
	format!(
		"{:?} {:?} {:?} {} {}",
		c.network(),
		c.private_key().secret_bytes(),
		c.public_key(),
		c.address(),
		c.wif().to_string()
	)
}

fn bitcoin_view(b: &BitcoinCredentials) -> String {
	format!(
		"{:?} {:?} {} {} {} {} {} {}",
		b.network(),
		[b.private_key_p2pkh(), b.private_key_p2wpkh(), b.private_key_p2tr()].map(|k| k.secret_bytes()),
		b.address_p2pkh(),
		b.address_p2wpkh(),
		b.address_p2tr(),
		b.wif_p2pkh().to_string(),
		b.wif_p2wpkh().to_string(),
		b.wif_p2tr().to_string(),
	)
}

fn json<T: Serialize + serde::de::DeserializeOwned>(v: &T, how: u8) -> Result<T, String> {
	match how % 3 {
		0 => serde_json::from_str(&serde_json::to_string(v).map_err(|e| e.to_string())?),
		1 => serde_json::from_value(serde_json::to_value(v).map_err(|e| e.to_string())?),
		_ => serde_json::from_slice(&serde_json::to_vec_pretty(v).map_err(|e| e.to_string())?),
	}
	.map_err(|e| format!("reading back: {e}"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StoreCase {
	entropy: Vec<u8>,
	/// account indices and networks of stored credentials
	accounts: Vec<(u32, u8, bool)>,
	how: u8,
	times: u8,
}

fn store_check(c: &StoreCase) -> CheckResult {
	let words = ref_mnemonic(&c.entropy);
	let w = Wallet::new(&words).map_err(|e| e.to_string())?;
	let mut w2 = json(&w, c.how)?;
	for _ in 0..c.times {
		w2 = json(&w2, c.how.wrapping_add(1))?;
	}
	ensure_eq!(w2.mnemonic().to_string(), words, "mnemonic");
	ensure_eq!(w2.master_key(), w.master_key(), "master key");
	for m in [true, false] {
		ensure_eq!(w2.wif(network(m)).to_string(), w.wif(network(m)).to_string(), "wallet WIF");
	}
	for (i, bn, main) in &c.accounts {
		let n = network(*main);
		let s = w.credentials(n, *i).map_err(|e| e.to_string())?;
		let b = w.bitcoin_credentials(net(*bn), *i).map_err(|e| e.to_string())?;
		let s2 = w2.credentials(n, *i).map_err(|e| e.to_string())?;
		let b2 = w2.bitcoin_credentials(net(*bn), *i).map_err(|e| e.to_string())?;
		ensure_eq!(stacks_view(&s2), stacks_view(&s), "Stacks credentials of the stored wallet");
		ensure_eq!(bitcoin_view(&b2), bitcoin_view(&b), "Bitcoin credentials of the stored wallet");
		ensure_eq!(stacks_view(&json(&s, c.how)?), stacks_view(&s), "stored Stacks credentials");
		ensure_eq!(bitcoin_view(&json(&b, c.how)?), bitcoin_view(&b), "stored Bitcoin credentials");
	}
	Ok(Outcome::new(true).label(format!("{}-accounts", c.accounts.len())))
}

fn store_case() -> impl Strategy<Value = StoreCase> {
	(entropy(), vec((0..H, 0u8..4, any::<bool>()), 1..3), any::<u8>(), 0u8..3)
		.prop_map(|(entropy, accounts, how, times)| StoreCase { entropy, accounts, how, times })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NetName(String);

fn net_name() -> impl Strategy<Value = NetName> {
	prop_oneof![
		4 => "[mM][aA][iI][nN][nN][eE][tT]",
		4 => "[tT][eE][sS][tT][nN][eE][tT]",
		1 => "(main|test|mainnet |testnet |Main net|bitcoin|signet|regtest|0|1|)",
		2 => ("(mainnet|testnet)", any::<u8>(), "[a-z \u{0}ſ]").prop_map(|(s, i, c)| {
			let mut v: Vec<char> = s.chars().collect();
			let n = v.len();
			v[i as usize % n] = c.chars().next().unwrap();
			v.into_iter().collect()
		}),
		1 => "\\PC{0,10}",
	]
	.prop_map(NetName)
}

fn net_name_check(c: &NetName) -> CheckResult {
	let want = match c.0.to_ascii_lowercase().as_str() {
		"mainnet" => Some(Network::Mainnet),
		"testnet" => Some(Network::Testnet),
		_ => None,
	};
	for (how, got) in [
		("from_str", Network::from_str(&c.0).ok()),
		("try_from", Network::try_from(c.0.clone()).ok()),
		("JSON", serde_json::from_value(serde_json::json!(c.0)).ok()),
	] {
		ensure_eq!(got, want, "{how} of {:?}", c.0);
	}
	if let Some(n) = want {
		let name = c.0.to_ascii_lowercase();
		ensure_eq!(n.to_string(), name, "printed network");
		let s: String = n.into();
		ensure_eq!(s, name, "network as string");
		ensure_eq!(serde_json::to_value(n).unwrap(), serde_json::json!(name), "network as JSON");
		let b: BitcoinNetwork = n.into();
		let back: Network = b.into();
		ensure_eq!(back, n, "network through Bitcoin's");
	}
	for b in NETS {
		let n: Network = b.into();
		ensure_eq!(n == Network::Mainnet, b == BitcoinNetwork::Bitcoin, "Stacks network of {b}");
	}
	Ok(Outcome::new(!c.0.is_empty()).label(if want.is_some() { "valid" } else { "invalid" }))
}

pub fn c20() -> Property {
	Property::new(
		"C20",
		"stored: a wallet and the credentials of some accounts written to and read from JSON in three ways, repeatedly (all non-trivial), all observable parts compared; names: network names in any case, near misses, arbitrary text (non-trivial when not empty).",
	)
	.stage(Stage::new("stored", 5_000, 150_000, store_case, store_check).shrink(300))
	.stage(Stage::new("names", 200_000, 4_000_000, net_name, net_name_check))
}

