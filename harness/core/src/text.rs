//! C10, C11: c32 texts.
use bdk::bitcoin::hashes::{sha256, sha256d, Hash};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use stacks_core::{address::StacksAddress, c32};
use vkit::{ensure, ensure_eq, CheckResult, Outcome, Property, Stage};

use crate::gens::*;

pub const DIGITS: &[u8; 32] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";

/// The digit a character stands for (documented look-alikes: O is 0, I and L are 1).
pub fn digit(c: char) -> Option<u8> {
	let c = match c.to_ascii_uppercase() {
		'O' => '0',
		'I' | 'L' => '1',
		c => c,
	};
	DIGITS.iter().position(|d| *d as char == c).map(|i| i as u8)
}

/// Positional numeral arithmetic, one digit at a time.
fn rebase(digits: &[u8], from: u32, to: u32) -> Vec<u8> {
	let mut out: Vec<u8> = vec![]; // least significant first
	for d in digits {
		let mut carry = *d as u32;
		for o in out.iter_mut() {
			let v = *o as u32 * from + carry;
			*o = (v % to) as u8;
			carry = v / to;
		}
		while carry > 0 {
			out.push((carry % to) as u8);
			carry /= to;
		}
	}
	out.reverse();
	out
}

pub fn ref_encode(b: &[u8]) -> String {
	let zeros = b.iter().take_while(|x| **x == 0).count();
	let mut s = "0".repeat(zeros);
	s.extend(rebase(&b[zeros..], 256, 32).iter().map(|d| DIGITS[*d as usize] as char));
	s
}

pub fn ref_decode(s: &str) -> Option<Vec<u8>> {
	let d: Option<Vec<u8>> = s.chars().map(digit).collect();
	let d = d?;
	let zeros = d.iter().take_while(|x| **x == 0).count();
	let mut b = vec![0; zeros];
	b.extend(rebase(&d[zeros..], 32, 256));
	Some(b)
}

pub fn ref_canonical(s: &str) -> Option<String> {
	s.chars().map(|c| digit(c).map(|d| DIGITS[d as usize] as char)).collect()
}

fn checksum(version: u8, payload: &[u8]) -> [u8; 4] {
	let mut v = vec![version];
	v.extend(payload);
	sha256d::Hash::hash(&v)[..4].try_into().unwrap()
}

pub fn ref_check_encode(version: u8, payload: &[u8]) -> String {
	let mut b = payload.to_vec();
	b.extend(checksum(version, payload));
	format!("{}{}", DIGITS[version as usize] as char, ref_encode(&b))
}

pub fn ref_check_decode(s: &str) -> Option<(u8, Vec<u8>)> {
	let mut it = s.chars();
	let version = digit(it.next()?)?;
	let mut b = ref_decode(it.as_str())?;
	if b.len() < 4 {
		return None;
	}
	let sum = b.split_off(b.len() - 4);
	(sum == checksum(version, &b)).then_some((version, b))
}

pub fn ref_address(version: u8, hash: &[u8; 20]) -> String {
	format!("S{}", ref_check_encode(version, hash))
}

/// What an address text means; `None` if it must be refused.
pub fn ref_address_parse(s: &str) -> Option<(u8, [u8; 20])> {
	let rest = s.strip_prefix('S').or_else(|| s.strip_prefix('s'))?;
	let (v, b) = ref_check_decode(rest)?;
	VERSIONS.iter().any(|x| x.0 == v).then_some(())?;
	Some((v, b.try_into().ok()?))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
	Replace(u16, char),
	/// a digit of the alphabet moved by this much
	Digit(u16, u8),
	Swap(u16),
	Delete(u16),
	Insert(u16, char),
	Truncate(u16),
	Double(u16),
	Prefix(String),
	Suffix(String),
}

/// How the canonical text is written: case and look-alikes per character, then edits.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Writing {
	case: Vec<bool>,
	alike: Vec<u8>,
	edits: Vec<Edit>,
}

impl Writing {
	pub fn plain() -> Self {
		Self { case: vec![], alike: vec![], edits: vec![] }
	}
	pub fn apply(&self, canonical: &str, skip: usize) -> String {
		let mut t: Vec<char> = canonical
			.chars()
			.enumerate()
			.map(|(i, c)| {
				if i < skip {
					return c;
				}
				let alike = self.alike.get(i % self.alike.len().max(1)).copied().unwrap_or(0);
				let c = match (c, alike) {
					('0', 1) => 'O',
					('1', 1) => 'I',
					('1', 2) => 'L',
					(c, _) => c,
				};
				let lower = self.case.get(i % self.case.len().max(1)).copied().unwrap_or(false);
				if lower {
					c.to_ascii_lowercase()
				} else {
					c
				}
			})
			.collect();
		for e in &self.edits {
			let n = t.len();
			let at = |i: &u16| *i as usize % n.max(1);
			match e {
				Edit::Replace(i, c) if n > 0 => t[at(i)] = *c,
				Edit::Digit(i, d) if n > 0 => {
					if let Some(x) = digit(t[at(i)]) {
						t[at(i)] = DIGITS[((x + d) % 32) as usize] as char
					}
				}
				Edit::Swap(i) if n > 1 => {
					let k = *i as usize % (n - 1);
					t.swap(k, k + 1)
				}
				Edit::Delete(i) if n > 0 => {
					t.remove(at(i));
				}
				Edit::Insert(i, c) => t.insert(*i as usize % (n + 1), *c),
				Edit::Truncate(i) => t.truncate(*i as usize % (n + 1)),
				Edit::Double(i) if n > 0 => t.insert(at(i), t[at(i)]),
				Edit::Prefix(s) => t = s.chars().chain(t).collect(),
				Edit::Suffix(s) => t.extend(s.chars()),
				_ => {}
			}
		}
		t.into_iter().collect()
	}
}

fn some_char() -> impl Strategy<Value = char> + Clone {
	prop_oneof![
		6 => prop::sample::select(DIGITS.iter().map(|b| *b as char).collect::<Vec<_>>()),
		2 => prop::sample::select("OILoilUu".chars().collect::<Vec<_>>()),
		2 => prop::char::range(' ', '~'),
		1 => prop::sample::select(vec!['\u{0}', '\n', '\u{7f}', '\u{80}', 'é', 'Ⅰ', 'Ｓ', '😀', '\u{130}', '\u{17f}', '\u{212a}']),
		1 => any::<char>(),
	]
}

fn edit() -> impl Strategy<Value = Edit> + Clone {
	prop_oneof![
		3 => (any::<u16>(), some_char()).prop_map(|(i, c)| Edit::Replace(i, c)),
		4 => (any::<u16>(), 1u8..32).prop_map(|(i, d)| Edit::Digit(i, d)),
		3 => any::<u16>().prop_map(Edit::Swap),
		2 => any::<u16>().prop_map(Edit::Delete),
		2 => (any::<u16>(), some_char()).prop_map(|(i, c)| Edit::Insert(i, c)),
		2 => any::<u16>().prop_map(Edit::Truncate),
		1 => any::<u16>().prop_map(Edit::Double),
		1 => "[ 0S\n]{1,2}".prop_map(Edit::Prefix),
		1 => "[ 0\n]{1,2}".prop_map(Edit::Suffix),
	]
}

pub fn writing() -> impl Strategy<Value = Writing> + Clone {
	(
		prop_oneof![2 => Just(vec![]), 1 => Just(vec![true]), 2 => vec(any::<bool>(), 1..12)],
		prop_oneof![2 => Just(vec![]), 1 => vec(0u8..3, 1..7)],
		prop_oneof![3 => Just(vec![]), 6 => vec(edit(), 1), 1 => vec(edit(), 2..4)],
	)
		.prop_map(|(case, alike, edits)| Writing { case, alike, edits })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AddrText {
	/// version 0..32, payload, writing; the checksum is right
	Enc(u8, Vec<u8>, Writing),
	/// as before with another checksum
	Sum(u8, Vec<u8>, u8),
	Free(String),
}

/// Checksums that a wrong implementation might take for right.
fn odd_sum(kind: u8, v: u8, p: &[u8]) -> [u8; 4] {
	let mut sum = checksum(v, p);
	match kind % 7 {
		0 => [0; 4],
		1 => [0xff; 4],
		2 => {
			sum.reverse();
			sum
		}
		// without the version, with a leading 'S', hashed once, of nothing
		3 => checksum(p.first().copied().unwrap_or(0), p.get(1..).unwrap_or(&[])),
		4 => checksum(b'S', &[&[v], p].concat()),
		5 => {
			let h = sha256::Hash::hash(&[&[v], p].concat());
			h[..4].try_into().unwrap()
		}
		_ => sha256d::Hash::hash(&[])[..4].try_into().unwrap(),
	}
}

impl AddrText {
	pub fn text(&self) -> String {
		match self {
			AddrText::Enc(v, p, w) => {
				w.apply(&format!("S{}", ref_check_encode(*v, p)), 1)
			}
			AddrText::Sum(v, p, kind) => {
				let b = [p.as_slice(), &odd_sum(*kind, *v, p)].concat();
				format!("S{}{}", DIGITS[*v as usize] as char, ref_encode(&b))
			}
			AddrText::Free(s) => s.clone(),
		}
	}
}

pub fn addr_text() -> impl Strategy<Value = AddrText> + Clone {
	let payload = prop_oneof![
		12 => hash20().prop_map(|h| h.to_vec()),
		1 => vec(any::<u8>(), 0..40),
		1 => (hash20(), vec(any::<u8>(), 0..3), any::<bool>()).prop_map(|(h, x, front)| if front { [x, h.to_vec()].concat() } else { [h.to_vec(), x].concat() }),
	];
	prop_oneof![
		12 => (prop_oneof![10 => version(), 1 => 0u8..32], payload.clone(), writing()).prop_map(|(v, p, w)| AddrText::Enc(v, p, w)),
		1 => (version(), payload, any::<u8>()).prop_map(|(v, p, k)| AddrText::Sum(v, p, k)),
		1 => "S[0-9A-Za-z]{0,45}".prop_map(AddrText::Free),
		1 => "S?\\PC{0,12}".prop_map(AddrText::Free),
		1 => any::<String>().prop_map(AddrText::Free),
		1 => ("S{0,2}", vec(some_char(), 0..45)).prop_map(|(s, v)| AddrText::Free(s.chars().chain(v).collect())),
	]
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AddrCase {
	version: u8,
	hash: [u8; 20],
}

fn addr_print_check(c: &AddrCase) -> CheckResult {
	let p = Principal { version: c.version, hash: c.hash, contract: None };
	let a = p.address();
	let want = ref_address(c.version, &c.hash);
	ensure_eq!(a.to_string(), want, "printed address");
	ensure_eq!(String::from(a.clone()), want, "address as string");
	ensure_eq!(
		serde_json::to_value(&a).map_err(|e| e.to_string())?,
		serde_json::json!(want),
		"address as JSON"
	);
	ensure_eq!(c32::encode_address(p.version(), c.hash), want, "encode_address");
	let back = StacksAddress::try_from(want.as_str()).map_err(|e| format!("{want} refused: {e}"))?;
	ensure_eq!(back, a, "address read back");
	ensure_eq!(back.version() as u8, c.version, "version read back");
	ensure_eq!(hex::encode(back.hash()), hex::encode(c.hash), "hash read back");
	Ok(Outcome::new(true)
		.label(format!("version{}", c.version))
		.label_if(c.hash[0] == 0, "leading-zero"))
}

fn addr_parse_check(c: &AddrText) -> CheckResult {
	let text = c.text();
	let want = ref_address_parse(&text);
	match StacksAddress::try_from(text.as_str()) {
		Ok(a) => {
			let got = (a.version() as u8, <[u8; 20]>::try_from(a.hash().as_ref()).unwrap());
			ensure_eq!(Some(got), want, "address of {text:?}");
		}
		Err(e) => ensure!(
			want.is_none() || text.starts_with('s'),
			"{text:?} refused: {e}"
		),
	}
	// and with a payload of any length
	let any = text
		.strip_prefix('S')
		.and_then(ref_check_decode)
		.filter(|(v, _)| VERSIONS.iter().any(|x| x.0 == *v));
	match c32::decode_address(&text) {
		Ok((v, p)) => {
			if !text.starts_with('s') {
				ensure_eq!(
					Some((v as u8, hex::encode(&p))),
					any.map(|(v, p)| (v, hex::encode(p))),
					"decode_address of {text:?}"
				);
			}
		}
		Err(e) => ensure!(any.is_none(), "decode_address of {text:?} refused: {e}"),
	}
	let edited = matches!(c, AddrText::Enc(_, _, w) if !w.edits.is_empty());
	Ok(Outcome::new(text.len() > 5)
		.label(match (c, want.is_some()) {
			(AddrText::Free(_), _) => "free-text",
			(_, true) => "valid",
			(_, false) => "refused",
		})
		.label_if(edited, "edited"))
}

pub fn c10() -> Property {
	Property::new(
		"C10",
		"print: every version and hashes with many leading zero bytes (all non-trivial); parse: canonical texts written in other case or look-alike letters, then edited (replacement, transposition, deletion, insertion, truncation, padding), wrong versions or payload lengths with right checksums, wrong checksums of special forms, and arbitrary Unicode text (non-trivial when longer than five bytes).",
	)
	.assume("an edit that collides with the 32-bit checksum is not an error of the code; the reference decoder accepts it too")
	.assume("a lower-case leading 's' may be refused or accepted")
	.stage(Stage::new(
		"print",
		150_000,
		5_000_000,
		|| (version(), hash20()).prop_map(|(version, hash)| AddrCase { version, hash }),
		addr_print_check,
	))
	.stage(Stage::new("parse", 400_000, 12_000_000, addr_text, addr_parse_check))
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Blob(Vec<u8>);

fn blob() -> impl Strategy<Value = Vec<u8>> + Clone {
	let v = || {
		prop_oneof![
			4 => vec(any::<u8>(), 0..48),
			1 => vec(any::<u8>(), 48..300),
			1 => vec(Just(0xffu8), 0..40),
			1 => (any::<u8>(), 0usize..40).prop_map(|(b, n)| { let mut v = vec![0; n]; v.insert(0, b); v }),
		]
	};
	(prop_oneof![2 => Just(0usize), 1 => 0usize..30], v()).prop_map(|(z, v)| {
		let mut b = vec![0; z];
		b.extend(v);
		b
	})
}

fn blob_check(c: &Blob) -> CheckResult {
	let want = ref_encode(&c.0);
	let got = c32::encode(&c.0);
	ensure_eq!(got, want, "encoding of {}", hex::encode(&c.0));
	let back = c32::decode(&got).map_err(|e| format!("{got} refused: {e}"))?;
	ensure_eq!(hex::encode(back), hex::encode(&c.0), "decoding of {got}");
	Ok(Outcome::new(!c.0.is_empty()).label_if(c.0.first() == Some(&0), "leading-zero"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum C32Text {
	Enc(Vec<u8>, Writing),
	Free(String),
}

fn c32_text() -> impl Strategy<Value = C32Text> {
	prop_oneof![
		4 => (blob(), writing()).prop_map(|(b, w)| C32Text::Enc(b, w)),
		3 => "[0-9A-HJKMNP-TV-Z]{0,60}".prop_map(C32Text::Free),
		2 => "[0OoLlIi]{0,12}[0-9A-Za-z]{0,30}".prop_map(C32Text::Free),
		1 => "\\PC{0,30}".prop_map(C32Text::Free),
		1 => vec(some_char(), 0..30).prop_map(|v| C32Text::Free(v.into_iter().collect())),
	]
}

fn text_check(c: &C32Text) -> CheckResult {
	let text = match c {
		C32Text::Enc(b, w) => w.apply(&ref_encode(b), 0),
		C32Text::Free(s) => s.clone(),
	};
	let want = ref_decode(&text);
	match c32::decode(&text) {
		Ok(b) => {
			ensure_eq!(Some(hex::encode(&b)), want.as_ref().map(hex::encode), "decoding of {text:?}");
			ensure_eq!(
				Some(c32::encode(&b)),
				ref_canonical(&text),
				"decoding {text:?} and encoding again"
			);
		}
		Err(e) => ensure!(want.is_none(), "{text:?} refused: {e}"),
	}
	Ok(Outcome::new(!text.is_empty()).label(if want.is_some() { "valid" } else { "refused" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum CheckText {
	/// version 0..32, payload, change of the checksum, writing
	Enc(u8, Vec<u8>, Option<(u8, u8)>, Writing),
	Free(String),
}

fn check_text() -> impl Strategy<Value = CheckText> {
	prop_oneof![
		8 => (
			prop_oneof![6 => version(), 1 => 0u8..32],
			blob(),
			prop::option::weighted(0.2, (0u8..4, 1u8..=255)),
			writing()
		)
			.prop_map(|(v, b, x, w)| CheckText::Enc(v, b, x, w)),
		1 => "[0-9A-Za-z]{0,20}".prop_map(CheckText::Free),
		1 => "\\PC{0,20}".prop_map(CheckText::Free),
		1 => vec(some_char(), 0..12).prop_map(|v| CheckText::Free(v.into_iter().collect())),
	]
}

fn check_text_check(c: &CheckText) -> CheckResult {
	let text = match c {
		CheckText::Enc(v, p, x, w) => {
			let mut b = p.clone();
			let mut sum = checksum(*v, p);
			if let Some((i, d)) = x {
				sum[*i as usize] ^= d;
			}
			b.extend(sum);
			let enc = format!("{}{}", DIGITS[*v as usize] as char, ref_encode(&b));
			if x.is_none() {
				if let Some(ver) = VERSIONS.iter().find(|y| y.0 == *v) {
					ensure_eq!(c32::version_check_encode(ver.1, p), enc, "versioned encoding");
				}
			}
			w.apply(&enc, 0)
		}
		CheckText::Free(s) => s.clone(),
	};
	let want = ref_check_decode(&text).filter(|(v, _)| VERSIONS.iter().any(|x| x.0 == *v));
	match c32::version_check_decode(&text) {
		Ok((v, p)) => {
			ensure_eq!(
				Some((v as u8, hex::encode(&p))),
				want.as_ref().map(|(v, p)| (*v, hex::encode(p))),
				"versioned decoding of {text:?}"
			);
		}
		Err(e) => ensure!(want.is_none(), "{text:?} refused: {e}"),
	}
	Ok(Outcome::new(!text.is_empty()).label(if want.is_some() { "valid" } else { "refused" }))
}

pub fn c11() -> Property {
	Property::new(
		"C11",
		"bytes: strings up to 330 bytes, often with leading zeros or all ones; text: encodings in other case or look-alikes and edited, digit strings of any length, arbitrary Unicode; versioned: version, payload, possibly wrong checksum, writing and edits, arbitrary text. Non-trivial when not empty. The oracle is schoolbook base conversion.",
	)
	.stage(Stage::new("bytes", 200_000, 6_000_000, || blob().prop_map(Blob), blob_check))
	.stage(Stage::new("text", 300_000, 8_000_000, c32_text, text_check))
	.stage(Stage::new("versioned", 250_000, 8_000_000, check_text, check_text_check))
}
