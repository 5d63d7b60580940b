//! C15, C16: hashes and big integers.
use bdk::bitcoin::hashes::{hash160, sha256, sha256d, Hash};
use proptest::{collection::vec, prelude::*};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use stacks_core::{
	crypto::{
		hash160::{Hash160Hasher, Hash160Hashing},
		sha256::{DoubleSha256Hasher, DoubleSha256Hashing, Sha256Hasher, Sha256Hashing},
		Hashing,
	},
	uint::{Uint, Uint256, Uint512},
};
use vkit::{ensure, ensure_eq, CheckResult, Outcome, Property, Stage};

use crate::gens::amount_any;

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Data(Vec<u8>);

fn data() -> impl Strategy<Value = Data> {
	prop_oneof![
		4 => vec(any::<u8>(), 0..70),
		// around the block and padding boundaries of the hash functions
		3 => (0usize..6, -2i32..=2, any::<u8>()).prop_map(|(b, d, x)| {
			let n = ([55, 64, 119, 128, 183, 256][b] + d) as usize;
			(0..n).map(|i| x.wrapping_mul(i as u8).wrapping_add(i as u8)).collect()
		}),
		1 => vec(any::<u8>(), 200..1500),
	]
	.prop_map(Data)
}

/// All forms of one hash value keep it.
fn forms<T, const N: usize>(h: T, want: [u8; N]) -> Result<(), String>
where
	T: Hashing<N>
		+ AsRef<[u8]>
		+ for<'a> TryFrom<&'a [u8]>
		+ From<[u8; N]>
		+ PartialEq
		+ std::fmt::Debug,
{
	let hexed = hex::encode(want);
	ensure_eq!(hex::encode(h.as_bytes()), hexed, "bytes");
	ensure_eq!(hex::encode(h.as_ref() as &[u8]), hexed, "reference");
	ensure_eq!(h.to_hex(), hexed, "hex");
	ensure_eq!(h.checksum()[..], want[..4], "checksum");
	ensure_eq!(T::from_bytes(&want).map_err(|e| e.to_string())?, h, "from bytes");
	ensure_eq!(T::from(want), h, "from array");
	ensure_eq!(
		T::try_from(&want[..]).map_err(|_| "slice of the right length refused".to_string())?,
		h,
		"from slice"
	);
	ensure_eq!(T::from_hex(&hexed).map_err(|e| e.to_string())?, h, "from hex");
	Ok(())
}

fn json_form<T>(h: T, want: &[u8]) -> Result<(), String>
where
	T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug,
{
	let hexed = hex::encode(want);
	let json = serde_json::to_value(&h).map_err(|e| e.to_string())?;
	ensure_eq!(json, serde_json::json!(hexed), "JSON");
	ensure_eq!(
		serde_json::from_value::<T>(json).map_err(|e| e.to_string())?,
		h,
		"read from JSON"
	);
	Ok(())
}

/// The plain hash types under the hashers.
fn plain<T, const N: usize>(data: &[u8], want: [u8; N]) -> Result<(), String>
where
	T: Hashing<N> + PartialEq + std::fmt::Debug,
{
	let h = T::hash(data);
	let hexed = hex::encode(want);
	ensure_eq!(hex::encode(h.as_bytes()), hexed, "plain bytes");
	ensure_eq!(h.to_hex(), hexed, "plain hex");
	ensure_eq!(h.checksum()[..], want[..4], "plain checksum");
	ensure_eq!(T::from_bytes(&want).map_err(|e| e.to_string())?, h, "plain from bytes");
	ensure_eq!(T::from_hex(&hexed).map_err(|e| e.to_string())?, h, "plain from hex");
	Ok(())
}

fn hash_check(c: &Data) -> CheckResult {
	let d = &c.0;
	let s = sha256::Hash::hash(d).into_inner();
	let dd = sha256d::Hash::hash(d).into_inner();
	let r = hash160::Hash::hash(d).into_inner();
	forms(Sha256Hasher::new(d), s).map_err(|e| format!("SHA-256: {e}"))?;
	forms(DoubleSha256Hasher::new(d), dd).map_err(|e| format!("double SHA-256: {e}"))?;
	forms(Hash160Hasher::new(d), r).map_err(|e| format!("HASH160: {e}"))?;
	json_form(Sha256Hasher::new(d), &s).map_err(|e| format!("SHA-256: {e}"))?;
	json_form(Hash160Hasher::new(d), &r).map_err(|e| format!("HASH160: {e}"))?;
	plain::<Sha256Hashing, 32>(d, s).map_err(|e| format!("SHA-256: {e}"))?;
	plain::<DoubleSha256Hashing, 32>(d, dd).map_err(|e| format!("double SHA-256: {e}"))?;
	plain::<Hash160Hashing, 20>(d, r).map_err(|e| format!("HASH160: {e}"))?;
	json_form(Sha256Hashing::hash(d), &s).map_err(|e| format!("plain SHA-256: {e}"))?;
	json_form(Hash160Hashing::hash(d), &r).map_err(|e| format!("plain HASH160: {e}"))?;
	ensure_eq!(hex::encode(Sha256Hasher::hash(d)), hex::encode(s), "hash()");
	let int: Uint256 = DoubleSha256Hasher::new(d).into();
	ensure_eq!(hex::encode(int.to_le_bytes()), hex::encode(dd), "integer form");
	Ok(Outcome::new(!d.is_empty()).label_if(d.len() > 64, "several-blocks"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Malformed {
	bytes: Vec<u8>,
	text: String,
}

fn malformed() -> impl Strategy<Value = Malformed> {
	let bytes = prop_oneof![
		2 => vec(any::<u8>(), 0..70),
		1 => vec(any::<u8>(), 19..=21),
		1 => vec(any::<u8>(), 31..=33),
		1 => vec(any::<u8>(), 20),
		1 => vec(any::<u8>(), 32),
	];
	let text = prop_oneof![
		2 => "[0-9a-fA-F]{0,70}",
		2 => "[0-9a-fA-F]{40}",
		2 => "[0-9a-fA-F]{64}",
		1 => "[0-9a-f]{39,41}",
		1 => "[0-9a-f]{63,65}",
		1 => "[0-9a-f]{0,63}[^0-9a-fA-F][0-9a-f]{0,63}",
		1 => "0x[0-9a-f]{62}",
		1 => "(0x|0X|x| |\\n|\\t|\\+|#|\u{feff}){1,2}[0-9a-f]{64}",
		1 => "(0x|0X|x| |\\n|\\t|\\+|#|\u{feff}){1,2}[0-9a-f]{40}",
		1 => "([0-9a-f]{64}|[0-9a-f]{40})(h| |\\n|\\t|\u{0}|=){1,2}",
		1 => "([0-9a-f]{2}[ :-]){19}[0-9a-f]{2}|([0-9a-f]{2}[ :-]){31}[0-9a-f]{2}",
		1 => any::<String>(),
	];
	(bytes, text).prop_map(|(bytes, text)| Malformed { bytes, text })
}

fn ref_hex(s: &str) -> Option<Vec<u8>> {
	let d: Option<Vec<u8>> = s.bytes().map(|b| (b as char).to_digit(16).map(|x| x as u8)).collect();
	let d = d?;
	(d.len() % 2 == 0).then(|| d.chunks(2).map(|p| p[0] << 4 | p[1]).collect())
}

fn accepts<T, const N: usize>(c: &Malformed) -> Result<bool, String>
where
	T: Hashing<N> + for<'a> TryFrom<&'a [u8]>,
{
	let good = c.bytes.len() == N;
	match T::from_bytes(&c.bytes) {
		Ok(h) => {
			ensure!(good, "{} bytes accepted", c.bytes.len());
			ensure_eq!(hex::encode(h.as_bytes()), hex::encode(&c.bytes), "from bytes");
		}
		Err(_) => ensure!(!good, "{N} bytes refused"),
	}
	ensure_eq!(T::try_from(&c.bytes[..]).is_ok(), good, "slice accepted");
	let want = ref_hex(&c.text).filter(|b| b.len() == N);
	ensure_eq!(
		T::from_hex(&c.text).ok().map(|h| hex::encode(h.as_bytes())),
		want.as_ref().map(hex::encode),
		"hex {:?}",
		c.text
	);
	Ok(good || want.is_some())
}

fn json_accepts<T, const N: usize>(c: &Malformed) -> Result<(), String>
where
	T: Hashing<N> + DeserializeOwned,
{
	let want = ref_hex(&c.text).filter(|b| b.len() == N);
	ensure_eq!(
		serde_json::from_value::<T>(serde_json::json!(c.text))
			.ok()
			.map(|h| hex::encode(h.as_bytes())),
		want.as_ref().map(hex::encode),
		"JSON {:?}",
		c.text
	);
	Ok(())
}

fn malformed_check(c: &Malformed) -> CheckResult {
	let a = accepts::<Sha256Hasher, 32>(c).map_err(|e| format!("SHA-256: {e}"))?;
	accepts::<DoubleSha256Hasher, 32>(c).map_err(|e| format!("double SHA-256: {e}"))?;
	let b = accepts::<Hash160Hasher, 20>(c).map_err(|e| format!("HASH160: {e}"))?;
	json_accepts::<Sha256Hasher, 32>(c).map_err(|e| format!("SHA-256: {e}"))?;
	json_accepts::<Hash160Hasher, 20>(c).map_err(|e| format!("HASH160: {e}"))?;
	json_accepts::<Sha256Hashing, 32>(c).map_err(|e| format!("plain SHA-256: {e}"))?;
	json_accepts::<Hash160Hashing, 20>(c).map_err(|e| format!("plain HASH160: {e}"))?;
	Ok(Outcome::new(!c.bytes.is_empty() || !c.text.is_empty()).label(if a || b {
		"some-valid"
	} else {
		"invalid"
	}))
}

pub fn c15() -> Property {
	Property::new(
		"C15",
		"hash: data of 0 to 1500 bytes, dense around padding boundaries (non-trivial when not empty), compared with rust-bitcoin's hash implementations in every form; malformed: byte strings and texts of right and wrong length and alphabet (non-trivial when not both empty).",
	)
	.stage(Stage::new("hash", 120_000, 4_000_000, data, hash_check))
	.stage(Stage::new("malformed", 300_000, 8_000_000, malformed, malformed_check))
}

// ---------------------------------------------------------------- C16

/// Natural numbers as bytes, least significant first; schoolbook arithmetic.
mod nat {
	use std::cmp::Ordering;
	pub fn trim(mut a: Vec<u8>) -> Vec<u8> {
		while a.last() == Some(&0) {
			a.pop();
		}
		a
	}
	pub fn add(a: &[u8], b: &[u8]) -> Vec<u8> {
		let mut out = vec![];
		let mut c = 0u16;
		for i in 0..a.len().max(b.len()) {
			c += *a.get(i).unwrap_or(&0) as u16 + *b.get(i).unwrap_or(&0) as u16;
			out.push(c as u8);
			c >>= 8;
		}
		out.push(c as u8);
		trim(out)
	}
	/// a - b for a >= b
	pub fn sub(a: &[u8], b: &[u8]) -> Vec<u8> {
		let mut out = vec![];
		let mut borrow = 0i16;
		for i in 0..a.len() {
			let mut d = a[i] as i16 - *b.get(i).unwrap_or(&0) as i16 - borrow;
			borrow = (d < 0) as i16;
			if d < 0 {
				d += 256;
			}
			out.push(d as u8);
		}
		assert_eq!(borrow, 0);
		trim(out)
	}
	pub fn mul(a: &[u8], b: &[u8]) -> Vec<u8> {
		let mut out = vec![0u32; a.len() + b.len() + 1];
		for (i, x) in a.iter().enumerate() {
			let mut c = 0u32;
			for (j, y) in b.iter().enumerate() {
				let v = out[i + j] + *x as u32 * *y as u32 + c;
				out[i + j] = v & 255;
				c = v >> 8;
			}
			let mut k = i + b.len();
			while c > 0 {
				let v = out[k] + c;
				out[k] = v & 255;
				c = v >> 8;
				k += 1;
			}
		}
		trim(out.into_iter().map(|x| x as u8).collect())
	}
	pub fn cmp(a: &[u8], b: &[u8]) -> Ordering {
		let (a, b) = (trim(a.to_vec()), trim(b.to_vec()));
		a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
	}
	pub fn pow2(n: usize) -> Vec<u8> {
		let mut v = vec![0; n / 8];
		v.push(1 << (n % 8));
		v
	}
	pub fn bits(a: &[u8]) -> usize {
		(0..a.len() * 8).rev().find(|i| a[i / 8] >> (i % 8) & 1 == 1).map_or(0, |i| i + 1)
	}
	pub fn bit(a: &[u8], i: usize) -> u8 {
		a.get(i / 8).map_or(0, |b| b >> (i % 8) & 1)
	}
	/// the low `n` bytes, padded
	pub fn low(a: &[u8], n: usize) -> Vec<u8> {
		let mut v = a.to_vec();
		v.resize(n, 0);
		v
	}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Arith {
	a: Vec<u64>,
	b: Vec<u64>,
	shift: u16,
	small: u32,
}

fn word() -> impl Strategy<Value = u64> + Clone {
	prop_oneof![
		3 => amount_any(),
		2 => Just(0),
		2 => Just(u64::MAX),
		1 => Just(0xffff_ffff),
		1 => Just(0xffff_ffff_0000_0000),
		1 => any::<u64>(),
	]
}

fn number(n: usize) -> impl Strategy<Value = Vec<u64>> + Clone {
	prop_oneof![
		4 => vec(word(), n),
		// short numbers
		3 => (vec(word(), n), 0..=n).prop_map(move |(mut v, k)| { for x in &mut v[k..] { *x = 0 } v }),
		// near a power of two
		2 => (0..n * 64, -2i8..=2).prop_map(move |(s, d)| {
			let mut v = vec![0u64; n];
			v[s / 64] = 1 << (s % 64);
			let x = if d < 0 { u64::MAX } else { 0 };
			// add d as a sign-extended number
			let mut carry = 0u128;
			for (i, w) in v.iter_mut().enumerate() {
				let y = if i == 0 { d as i64 as u64 } else { x };
				let t = *w as u128 + y as u128 + carry;
				*w = t as u64;
				carry = t >> 64;
			}
			v
		}),
	]
}

fn arith(n: usize) -> impl Strategy<Value = Arith> {
	let max = (n * 64) as u16;
	(
		number(n),
		number(n),
		0u8..10,
		prop_oneof![4 => 0..max, 1 => (0u16..=(n as u16)).prop_map(|k| k * 64), 1 => max - 2..=max + 130],
		prop_oneof![3 => any::<u32>(), 1 => Just(u32::MAX), 1 => 0u32..3],
	)
		.prop_map(|(a, b, same, shift, small)| Arith {
			b: match same {
				0 => a.clone(),
				1 => {
					// a neighbour
					let mut v = a.clone();
					for w in v.iter_mut() {
						*w = w.wrapping_add(1);
						if *w != 0 {
							break;
						}
					}
					v
				}
				_ => b,
			},
			a,
			shift,
			small,
		})
}

fn arith_check<const N: usize>(c: &Arith) -> CheckResult {
	let (aw, bw): ([u64; N], [u64; N]) =
		(c.a.clone().try_into().unwrap(), c.b.clone().try_into().unwrap());
	let (a, b) = (Uint::<N>::from_u64_array(aw), Uint::<N>::from_u64_array(bw));
	let le = |w: &[u64]| w.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
	let (ra, rb) = (le(&c.a), le(&c.b));
	let n = N * 8;
	let is = |what: &str, got: Uint<N>, want: Vec<u8>| -> Result<(), String> {
		// the words themselves, not the conversions under test
		let words: Vec<u64> = got.into();
		ensure_eq!(hex::encode(le(&words)), hex::encode(nat::low(&want, n)), "{what} of {a} and {b}");
		Ok(())
	};
	is("sum", a + b, nat::add(&ra, &rb))?;
	is("difference", a - b, nat::sub(&nat::add(&ra, &nat::pow2(n * 8)), &rb))?;
	is("product", a * b, nat::mul(&ra, &rb))?;
	is("product with a word", a.mul_u32(c.small), nat::mul(&ra, &c.small.to_le_bytes()))?;
	let zero = nat::bits(&rb) == 0;
	if !zero {
		// q*b + r = a with r < b
		let q: Vec<u64> = (a / b).into();
		let p = nat::mul(&le(&q), &rb);
		ensure!(nat::cmp(&p, &ra).is_le(), "{a} / {b} = {:?} is too large", q);
		let r = nat::sub(&ra, &p);
		ensure!(nat::cmp(&r, &rb).is_lt(), "{a} / {b} = {:?} is too small", q);
	}
	let zip = |f: fn(u8, u8) -> u8| ra.iter().zip(&rb).map(|(x, y)| f(*x, *y)).collect::<Vec<_>>();
	is("and", a & b, zip(|x, y| x & y))?;
	is("or", a | b, zip(|x, y| x | y))?;
	is("xor", a ^ b, zip(|x, y| x ^ y))?;
	is("not", !a, zip(|x, _| !x))?;
	let s = c.shift as usize;
	is("left shift", a << s, {
		let mut v = vec![0u8; n];
		for i in s..n * 8 {
			v[i / 8] |= nat::bit(&ra, i - s) << (i % 8);
		}
		v
	})
	.map_err(|e| format!("by {s}: {e}"))?;
	is("right shift", a >> s, {
		let mut v = vec![0u8; n];
		for i in 0..n * 8 {
			v[i / 8] |= nat::bit(&ra, i + s) << (i % 8);
		}
		v
	})
	.map_err(|e| format!("by {s}: {e}"))?;
	ensure_eq!(a.cmp(&b), nat::cmp(&ra, &rb), "comparison of {a} and {b}");
	ensure_eq!(a.partial_cmp(&b), Some(nat::cmp(&ra, &rb)), "partial comparison of {a} and {b}");
	ensure_eq!(a == b, ra == rb, "equality of {a} and {b}");
	ensure_eq!(a.bits(), nat::bits(&ra), "bit length of {a}");
	let mut i = a;
	i.increment();
	is("increment", i, nat::add(&ra, &[1]))?;
	ensure_eq!(a.low_u64(), aw[0], "low word");
	ensure_eq!(a.low_u32(), aw[0] as u32, "low half word");
	let many = |w: &[u8]| w.iter().filter(|x| **x != 0).count() > 8;
	Ok(Outcome::new(nat::bits(&ra) > 0 && !zero)
		.label_if(many(&ra) && many(&rb), "both-long")
		.label_if(a == b, "equal")
		.label_if(zero, "zero-divisor")
		.label_if(s >= n * 8, "shift-out"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conv {
	a: Vec<u64>,
	bytes: Vec<u8>,
	text: String,
	words: Vec<u64>,
	small: u64,
	large: [u64; 2],
}

fn conv() -> impl Strategy<Value = Conv> {
	let bytes = prop_oneof![
		2 => vec(any::<u8>(), 0..80),
		1 => vec(any::<u8>(), 32),
		1 => vec(any::<u8>(), 64),
		1 => (0usize..12).prop_flat_map(|k| vec(any::<u8>(), k * 8)),
	];
	let text = prop_oneof![
		1 => "[0-9a-fA-F]{64}",
		1 => "[0-9a-fA-F]{128}",
		1 => "[0-9a-fA-F]{0,140}",
		1 => "[0-9a-f]{0,64}[g-z \n][0-9a-f]{0,64}",
		1 => any::<String>(),
	];
	(number(8), bytes, text, vec(word(), 0..12), word(), [word(), word()]).prop_map(
		|(a, bytes, text, words, small, large)| Conv { a, bytes, text, words, small, large },
	)
}

fn conv_width<const N: usize>(c: &Conv) -> Result<(), String> {
	let words = &c.a[..N];
	let u = Uint::<N>::from_u64_array(words.try_into().unwrap());
	let le: Vec<u8> = words.iter().flat_map(|x| x.to_le_bytes()).collect();
	let be: Vec<u8> = le.iter().rev().copied().collect();
	ensure_eq!(hex::encode(u.to_le_bytes()), hex::encode(&le), "little-endian bytes");
	ensure_eq!(hex::encode(u.to_be_bytes()), hex::encode(&be), "big-endian bytes");
	ensure_eq!(u.to_le_hex(), hex::encode(&le), "little-endian hex");
	ensure_eq!(u.to_be_hex(), hex::encode(&be), "big-endian hex");
	ensure_eq!(u.to_string(), format!("0x{}", hex::encode(&be)), "printed integer");
	let ok = |r: Result<Uint<N>, stacks_core::StacksError>| r.map_err(|e| e.to_string());
	ensure_eq!(ok(Uint::from_le_bytes(&le))?, u, "from little-endian bytes");
	ensure_eq!(ok(Uint::from_be_bytes(&be))?, u, "from big-endian bytes");
	ensure_eq!(ok(Uint::from_le_hex(hex::encode(&le)))?, u, "from little-endian hex");
	ensure_eq!(ok(Uint::from_be_hex(hex::encode(&be)))?, u, "from big-endian hex");
	let json = serde_json::to_value(u).map_err(|e| e.to_string())?;
	ensure_eq!(json, serde_json::json!(words), "JSON");
	ensure_eq!(
		serde_json::from_value::<Uint<N>>(json).map_err(|e| e.to_string())?,
		u,
		"read from JSON"
	);
	// arbitrary input
	let good = c.bytes.len() == N * 8;
	for (how, got, flip) in [
		("le", Uint::<N>::from_le_bytes(&c.bytes), false),
		("be", Uint::<N>::from_be_bytes(&c.bytes), true),
	] {
		ensure_eq!(got.is_ok(), good, "{how}: {} bytes accepted", c.bytes.len());
		if let Ok(g) = got {
			let w: Vec<u64> = g.into();
			let mut b: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes()).collect();
			if flip {
				b.reverse();
			}
			ensure_eq!(hex::encode(b), hex::encode(&c.bytes), "{how}: bytes kept");
		}
	}
	let want = ref_hex(&c.text).filter(|b| b.len() == N * 8);
	for (how, got, flip) in [
		("le", Uint::<N>::from_le_hex(&c.text), false),
		("be", Uint::<N>::from_be_hex(&c.text), true),
	] {
		let got = got.ok().map(|g| {
			let w: Vec<u64> = g.into();
			let mut b: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes()).collect();
			if flip {
				b.reverse();
			}
			hex::encode(b)
		});
		ensure_eq!(got, want.as_ref().map(hex::encode), "{how}: hex {:?}", c.text);
	}
	let got = serde_json::from_value::<Uint<N>>(serde_json::json!(c.words));
	ensure_eq!(got.is_ok(), c.words.len() == N, "JSON with {} words accepted", c.words.len());
	if let Ok(g) = got {
		let w: Vec<u64> = g.into();
		ensure_eq!(w, c.words, "words kept");
	}
	// small integers
	let first = |w: [u64; 2]| {
		let mut v = [0u64; N];
		v[..2].copy_from_slice(&w);
		Uint::<N>::from_u64_array(v)
	};
	ensure_eq!(Uint::<N>::from(c.small), first([c.small, 0]), "from u64");
	ensure_eq!(Uint::<N>::from(c.small as u32), first([c.small as u32 as u64, 0]), "from u32");
	ensure_eq!(Uint::<N>::from(c.small as u16), first([c.small as u16 as u64, 0]), "from u16");
	ensure_eq!(Uint::<N>::from(c.small as u8), first([c.small as u8 as u64, 0]), "from u8");
	ensure_eq!(
		Uint::<N>::from(c.large[0] as u128 | (c.large[1] as u128) << 64),
		first(c.large),
		"from u128"
	);
	ensure_eq!(Uint::<N>::default(), first([0, 0]), "default");
	ensure_eq!(Uint::<N>::MIN, first([0, 0]), "MIN");
	ensure_eq!(Uint::<N>::MAX, Uint::from_u64_array([u64::MAX; N]), "MAX");
	Ok(())
}

fn widths<const N: usize, const M: usize>(c: &Conv) -> Result<(), String> {
	let u = Uint::<N>::from_u64_array(c.a[..N].try_into().unwrap());
	let mut w = [0u64; M];
	for i in 0..N.min(M) {
		w[i] = c.a[i];
	}
	let want = Uint::<M>::from_u64_array(w);
	ensure_eq!(u.to_uint_lossy::<M>(), want, "to_uint_lossy {N} to {M}");
	ensure_eq!(Uint::<M>::from_uint_lossy(u), want, "from_uint_lossy {N} to {M}");
	if N < M {
		ensure_eq!(Uint::<M>::from_uint(u), want, "from_uint {N} to {M}");
	}
	if N <= M {
		ensure_eq!(u.to_uint::<M>(), want, "to_uint {N} to {M}");
	}
	Ok(())
}

fn conv_check(c: &Conv) -> CheckResult {
	conv_width::<4>(c).map_err(|e| format!("256 bits: {e}"))?;
	conv_width::<8>(c).map_err(|e| format!("512 bits: {e}"))?;
	conv_width::<2>(c).map_err(|e| format!("128 bits: {e}"))?;
	widths::<4, 8>(c)?;
	widths::<8, 4>(c)?;
	widths::<4, 4>(c)?;
	widths::<2, 4>(c)?;
	widths::<4, 2>(c)?;
	let h: [u8; 32] =
		c.a[..4].iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>().try_into().unwrap();
	ensure_eq!(
		Uint256::from(DoubleSha256Hasher::from(h)),
		Uint256::from_u64_array(c.a[..4].try_into().unwrap()),
		"integer of a hash"
	);
	let _ = Uint512::MAX;
	Ok(Outcome::new(c.a.iter().any(|x| *x != 0)).label_if(c.bytes.len() % 32 == 0, "width-bytes"))
}

pub fn c16() -> Property {
	Property::new(
		"C16",
		"arithmetic: two numbers (random and extreme words, short numbers, neighbours of powers of two, equal or adjacent numbers), a shift and a small factor, for 256 and 512 bits (non-trivial when neither is zero); conversions: a number, byte strings, hex and JSON of right and wrong length (non-trivial when the number is not zero). The oracle is schoolbook arithmetic on bytes; quotients are checked by q*b + r = a, r < b.",
	)
	.assume("division by zero, narrowing without the lossy functions and from_uint between equal widths are outside the property")
	.stage(Stage::new("arithmetic-256", 300_000, 8_000_000, || arith(4), arith_check::<4>))
	.stage(Stage::new("arithmetic-512", 150_000, 4_000_000, || arith(8), arith_check::<8>))
	.stage(Stage::new("conversions", 200_000, 6_000_000, conv, conv_check))
}
