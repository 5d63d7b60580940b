//! C12-C14, C08: wire formats, contract names, principal texts, commit-reveal payloads.
use std::io::{self, Read, Write};

use bdk::bitcoin::{
	secp256k1::{
		ecdsa::RecoverableSignature,
		Message, Secp256k1,
	},
	Amount, Script,
};
use proptest::{collection::vec, prelude::*};
use sbtc_core::operations::{
	commit_reveal::{deposit::DepositData, withdrawal_request::WithdrawalData},
	op_return::{
		deposit::DepositOutputData, withdrawal_fulfillment::ParsedWithdrawalFulfillmentData,
		withdrawal_request::WithdrawalRequestDataOutputData,
	},
	Opcode,
};
use serde::{Deserialize, Serialize};
use stacks_core::{
	address::StacksAddress,
	codec::Codec,
	contract_name::ContractName,
	uint::{Uint, Uint256, Uint512},
	utils::{PrincipalData, StandardPrincipalData},
	BlockId,
};
use vkit::{ensure, ensure_eq, CheckResult, Outcome, Property, Stage};

use crate::{
	gens::*,
	ops::{ref_contract_name, ref_principal},
	text::{ref_address_parse, AddrText},
};

/// A reader that hands out its data in the given portions, may fail after a
/// number of bytes, and counts what was taken.
pub struct Portions<'a> {
	data: &'a [u8],
	sizes: &'a [u8],
	turn: usize,
	fail_at: Option<usize>,
	pub taken: usize,
}

impl<'a> Portions<'a> {
	pub fn new(data: &'a [u8], sizes: &'a [u8]) -> Self {
		Self { data, sizes, turn: 0, fail_at: None, taken: 0 }
	}
}

impl Read for Portions<'_> {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		if self.fail_at == Some(self.taken) {
			return Err(io::Error::new(io::ErrorKind::ConnectionReset, "injected"));
		}
		let size = if self.sizes.is_empty() {
			usize::MAX
		} else {
			let s = self.sizes[self.turn % self.sizes.len()] as usize;
			self.turn += 1;
			if s == 0 && self.turn % 2 == 1 {
				return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
			}
			s.max(1)
		};
		let mut n = size.min(buf.len()).min(self.data.len());
		if let Some(f) = self.fail_at {
			n = n.min(f - self.taken);
		}
		buf[..n].copy_from_slice(&self.data[..n]);
		self.data = &self.data[n..];
		self.taken += n;
		Ok(n)
	}
}

/// A writer that accepts only part of what it is offered.
struct Slow<'a>(Vec<u8>, &'a [u8], usize);
impl Write for Slow<'_> {
	fn write(&mut self, b: &[u8]) -> io::Result<usize> {
		let n = if self.1.is_empty() {
			b.len()
		} else {
			self.2 += 1;
			(self.1[self.2 % self.1.len()] as usize).max(1).min(b.len())
		};
		self.0.extend(&b[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Wire {
	Address(u8, [u8; 20]),
	Standard(u8, [u8; 20]),
	Principal(Principal),
	Name(String),
	Amount(u64),
	U64(u64),
	U256([u64; 4]),
	U512([u64; 8]),
	Block([u64; 4]),
	Sig([u8; 32], [u8; 32]),
	Op(u8),
	Script(Vec<u8>),
	/// network, amount, signing key
	Withdraw(u8, u64, [u8; 32]),
	CrDeposit(Principal, u64),
	CrWithdraw(u64, [u8; 32], [u8; 32], u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WireCase {
	value: Wire,
	trail: Vec<u8>,
	read: Vec<u8>,
	write: Vec<u8>,
}

fn word() -> impl Strategy<Value = u64> + Clone {
	amount_any()
}

fn wire_value() -> impl Strategy<Value = Wire> + Clone {
	prop_oneof![
		2 => (version(), hash20()).prop_map(|(v, h)| Wire::Address(v, h)),
		1 => (version(), hash20()).prop_map(|(v, h)| Wire::Standard(v, h)),
		4 => principal().prop_map(Wire::Principal),
		2 => contract_name().prop_map(Wire::Name),
		1 => word().prop_map(Wire::Amount),
		1 => word().prop_map(Wire::U64),
		1 => [word(), word(), word(), word()].prop_map(Wire::U256),
		1 => vec(word(), 8).prop_map(|v| Wire::U512(v.try_into().unwrap())),
		1 => [word(), word(), word(), word()].prop_map(Wire::Block),
		2 => (seed32(), any::<[u8; 32]>()).prop_map(|(k, m)| Wire::Sig(k, m)),
		1 => prop::sample::select(vec![b'<', b'>', b'!', b'H']).prop_map(Wire::Op),
		1 => vec(any::<u8>(), 0..80).prop_map(Wire::Script),
		1 => (0u8..4, word(), seed32()).prop_map(|(n, a, k)| Wire::Withdraw(n, a, k)),
		2 => (principal(), word()).prop_map(|(p, a)| Wire::CrDeposit(p, a)),
		2 => (word(), seed32(), any::<[u8; 32]>(), word()).prop_map(|(a, k, m, f)| Wire::CrWithdraw(a, k, m, f)),
	]
}

fn portions() -> impl Strategy<Value = Vec<u8>> + Clone {
	prop_oneof![
		1 => Just(vec![]),
		2 => Just(vec![1]),
		3 => vec(0u8..6, 1..6),
		1 => vec(any::<u8>(), 1..4),
	]
}

fn wire_case() -> impl Strategy<Value = WireCase> {
	(
		wire_value(),
		prop_oneof![1 => Just(vec![]), 2 => vec(any::<u8>(), 1..50)],
		portions(),
		portions(),
	)
		.prop_map(|(value, trail, read, write)| WireCase { value, trail, read, write })
}

pub fn signature(key: &[u8; 32], msg: &[u8; 32]) -> RecoverableSignature {
	Secp256k1::new().sign_ecdsa_recoverable(&Message::from_slice(msg).unwrap(), &sk(key))
}

fn sig_bytes(s: &RecoverableSignature) -> Vec<u8> {
	let (id, c) = s.serialize_compact();
	let mut v = vec![id.to_i32() as u8];
	v.extend(c);
	v
}

fn be_words(w: &[u64]) -> Vec<u8> {
	w.iter().rev().flat_map(|x| x.to_be_bytes()).collect()
}

fn round<T: Codec>(
	c: &WireCase,
	value: &T,
	expect: &[u8],
	same: impl Fn(&T) -> Result<(), String>,
) -> Result<(), String> {
	ensure_eq!(hex::encode(value.serialize_to_vec()), hex::encode(expect), "serialised");
	let mut w = Slow(vec![], &c.write, 0);
	value.codec_serialize(&mut w).map_err(|e| format!("serialising into a slow writer: {e}"))?;
	ensure_eq!(hex::encode(&w.0), hex::encode(expect), "serialised into a slow writer");
	let mut w = vec![];
	value.serialize(&mut w).map_err(|e| format!("serialising: {e}"))?;
	ensure_eq!(hex::encode(&w), hex::encode(expect), "serialised with serialize");
	let mut input = expect.to_vec();
	if !matches!(c.value, Wire::Script(_)) {
		input.extend(&c.trail);
	}
	for stacks in [false, true] {
		let mut r = Portions::new(&input, &c.read);
		let got = if stacks {
			T::deserialize(&mut r).map_err(|e| format!("deserialize: {e}"))?
		} else {
			T::codec_deserialize(&mut r).map_err(|e| format!("deserialising: {e}"))?
		};
		ensure_eq!(r.taken, expect.len(), "bytes consumed");
		same(&got)?;
		ensure_eq!(hex::encode(got.serialize_to_vec()), hex::encode(expect), "serialised again");
	}
	Ok(())
}

fn uint_same<const N: usize>(w: &[u64; N]) -> impl Fn(&Uint<N>) -> Result<(), String> + '_ {
	move |g| {
		ensure_eq!(*g, Uint::from_u64_array(*w), "integer");
		ensure_eq!(g.low_u64(), w[0], "low word");
		Ok(())
	}
}

fn wire_check(c: &WireCase) -> CheckResult {
	let addr = |v: u8, h: &[u8; 20]| Principal { version: v, hash: *h, contract: None }.address();
	let same_addr = |v: u8, h: [u8; 20]| {
		move |a: &StacksAddress| {
			ensure_eq!(a.version() as u8, v, "version");
			ensure_eq!(hex::encode(a.hash()), hex::encode(h), "hash");
			Ok(())
		}
	};
	let label;
	match &c.value {
		Wire::Address(v, h) => {
			label = "address";
			let mut e = vec![*v];
			e.extend(h);
			round(c, &addr(*v, h), &e, same_addr(*v, *h))?
		}
		Wire::Standard(v, h) => {
			label = "standard-principal";
			let mut e = vec![*v];
			e.extend(h);
			round(c, &StandardPrincipalData::from(addr(*v, h)), &e, |g| {
				ensure_eq!(g.0 as u8, *v, "principal version");
				same_addr(*v, *h)(&g.1)
			})?
		}
		Wire::Principal(p) => {
			label = "principal";
			round(c, &p.build(), &p.wire(), |g| {
				ensure_eq!(Principal::of(g), *p, "principal");
				Ok(())
			})?
		}
		Wire::Name(n) => {
			label = "name";
			let mut e = vec![n.len() as u8];
			e.extend(n.bytes());
			round(c, &ContractName::new(n).unwrap(), &e, |g| {
				ensure_eq!(g.to_string(), *n, "name");
				ensure_eq!(&**g, n.as_str(), "name by reference");
				Ok(())
			})?
		}
		Wire::Amount(a) => {
			label = "amount";
			round(c, &Amount::from_sat(*a), &a.to_be_bytes(), |g| {
				ensure_eq!(g.to_sat(), *a, "amount");
				Ok(())
			})?
		}
		Wire::U64(a) => {
			label = "u64";
			round(c, a, &a.to_be_bytes(), |g| {
				ensure_eq!(g, a, "integer");
				Ok(())
			})?
		}
		Wire::U256(w) => {
			label = "u256";
			round(c, &Uint256::from_u64_array(*w), &be_words(w), uint_same(w))?
		}
		Wire::U512(w) => {
			label = "u512";
			round(c, &Uint512::from_u64_array(*w), &be_words(w), uint_same(w))?
		}
		Wire::Block(w) => {
			label = "block-id";
			round(c, &BlockId::new(Uint256::from_u64_array(*w)), &be_words(w), |_| Ok(()))?
		}
		Wire::Sig(k, m) => {
			label = "signature";
			let s = signature(k, m);
			round(c, &s, &sig_bytes(&s), |g| {
				ensure_eq!(*g, s, "signature");
				Ok(())
			})?
		}
		Wire::Op(o) => {
			label = "opcode";
			let op = match o {
				b'<' => Opcode::Deposit,
				b'>' => Opcode::WithdrawalRequest,
				b'!' => Opcode::WithdrawalFulfillment,
				_ => Opcode::WalletHandoff,
			};
			round(c, &op, &[*o], |g| {
				ensure_eq!(*g as u8, *o, "opcode");
				ensure_eq!(format!("{g:?}"), format!("{op:?}"), "opcode");
				Ok(())
			})?
		}
		Wire::Script(b) => {
			label = "script";
			round(c, &Script::from(b.clone()), b, |g| {
				ensure_eq!(hex::encode(g.as_bytes()), hex::encode(b), "script");
				Ok(())
			})?
		}
		Wire::Withdraw(n, a, k) => {
			label = "withdrawal-data";
			let n = net(*n);
			let payee = Addr::P2wpkh([7; 20]);
			let d = WithdrawalRequestDataOutputData::new(&payee.build(n), &sk(k), *a, n);
			let mut e = magic(n).to_vec();
			e.push(b'>');
			e.extend(a.to_be_bytes());
			e.extend(sig_bytes(&d.signature()));
			round(c, &d, &e, |g| {
				ensure_eq!(g.amount(), *a, "amount");
				ensure_eq!(g.signature(), d.signature(), "signature");
				ensure_eq!(magic(g.network()), magic(n), "network");
				Ok(())
			})?
		}
		Wire::CrDeposit(p, fee) => {
			label = "reveal-deposit";
			let mut e = vec![b'<'];
			e.extend(p.wire());
			e.extend(fee.to_be_bytes());
			let d = DepositData { principal: p.build(), reveal_fee: Amount::from_sat(*fee) };
			round(c, &d, &e, |g| {
				ensure_eq!(Principal::of(&g.principal), *p, "principal");
				ensure_eq!(g.reveal_fee.to_sat(), *fee, "reveal fee");
				Ok(())
			})?
		}
		Wire::CrWithdraw(a, k, m, fee) => {
			label = "reveal-withdrawal";
			let s = signature(k, m);
			let mut e = vec![b'>'];
			e.extend(a.to_be_bytes());
			e.extend(sig_bytes(&s));
			e.extend(fee.to_be_bytes());
			let d = WithdrawalData {
				amount: Amount::from_sat(*a),
				signature: s,
				reveal_fee: Amount::from_sat(*fee),
			};
			round(c, &d, &e, |g| {
				ensure_eq!(g.amount.to_sat(), *a, "amount");
				ensure_eq!(g.signature, s, "signature");
				ensure_eq!(g.reveal_fee.to_sat(), *fee, "reveal fee");
				Ok(())
			})?
		}
	}
	Ok(Outcome::new(true)
		.label(label)
		.label_if(!c.read.is_empty(), "split-reads")
		.label_if(!c.trail.is_empty(), "followed"))
}

pub fn c12() -> Property {
	Property::new(
		"C12",
		"A case is a value of one of the wire types, bytes that follow it, and the portions in which reader and writer work (with interruptions); every case is non-trivial. Bytes are compared with an independent encoder.",
	)
	.stage(Stage::new("round-trip", 800_000, 20_000_000, wire_case, wire_check))
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kind {
	Address,
	Standard,
	Principal,
	Name,
	Amount,
	U64,
	U256,
	U512,
	Block,
	Sig,
	Op,
	DepositOut,
	WithdrawOut,
	FulfillOut,
	CrDeposit,
	CrWithdraw,
}

const KINDS: [Kind; 16] = [
	Kind::Address,
	Kind::Standard,
	Kind::Principal,
	Kind::Name,
	Kind::Amount,
	Kind::U64,
	Kind::U256,
	Kind::U512,
	Kind::Block,
	Kind::Sig,
	Kind::Op,
	Kind::DepositOut,
	Kind::WithdrawOut,
	Kind::FulfillOut,
	Kind::CrDeposit,
	Kind::CrWithdraw,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BytesCase {
	kind: Kind,
	bytes: Vec<u8>,
	read: Vec<u8>,
	fail_at: Option<u16>,
}

/// Bytes shaped like the given kind: built from parts any of which may be off.
fn shaped(kind: Kind) -> BoxedStrategy<Vec<u8>> {
	let cat = |parts: Vec<BoxedStrategy<Vec<u8>>>| {
		parts.prop_map(|v| v.concat()).boxed()
	};
	let addr = || {
		(
			prop_oneof![12 => version(), 2 => 18u8..30, 1 => any::<u8>()],
			any::<[u8; 20]>(),
		)
			.prop_map(|(v, h)| {
				let mut b = vec![v];
				b.extend(h);
				b
			})
			.boxed()
	};
	let name = || {
		prop_oneof![
			8 => contract_name().prop_map(String::into_bytes),
			2 => "[a-zA-Z0-9_-]{0,45}".prop_map(String::into_bytes),
			1 => "[a-zA-Z0-9_-]{0,10}[ \n\r\t./$é٣K][a-zA-Z0-9_-]{0,10}".prop_map(String::into_bytes),
			1 => vec(any::<u8>(), 0..50),
			1 => (any::<u8>(), 100usize..256).prop_map(|(b, n)| vec![b; n]),
		]
		.prop_flat_map(|n| {
			let l = n.len() as u8;
			(prop_oneof![12 => Just(l), 1 => any::<u8>(), 1 => Just(l.wrapping_add(1)), 1 => Just(l.wrapping_sub(1))], Just(n))
		})
		.prop_map(|(l, n)| {
			let mut b = vec![l];
			b.extend(n);
			b
		})
		.boxed()
	};
	let principal = || {
		prop_oneof![
			4 => (prop_oneof![10 => Just(5u8), 1 => any::<u8>()], addr())
				.prop_map(|(t, a)| [vec![t], a].concat()),
			6 => (prop_oneof![10 => Just(6u8), 1 => any::<u8>()], addr(), name())
				.prop_map(|(t, a, n)| [vec![t], a, n].concat()),
		]
		.boxed()
	};
	let n_bytes = |n: usize| vec(any::<u8>(), n).boxed();
	let amount = || word().prop_map(|a| a.to_be_bytes().to_vec()).boxed();
	let order =
		hex::decode("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141").unwrap();
	let scalar = move || {
		let order = order.clone();
		prop_oneof![
			8 => vec(any::<u8>(), 32),
			1 => Just(vec![0u8; 32]),
			2 => (0u8..3).prop_map(move |d| { let mut o = order.clone(); o[31] = 0x40 + d; o }),
		]
	};
	let sig = || {
		prop_oneof![
			4 => (prop_oneof![6 => 0u8..4, 1 => any::<u8>()], scalar(), scalar())
				.prop_map(|(r, a, b)| [vec![r], a, b].concat()),
			2 => (seed32(), any::<[u8; 32]>()).prop_map(|(k, m)| sig_bytes(&signature(&k, &m))),
		]
		.boxed()
	};
	let op = |o: u8| {
		prop_oneof![8 => Just(vec![o]), 1 => prop::sample::select(b"<>!H".to_vec()).prop_map(|x| vec![x]), 1 => any::<u8>().prop_map(|x| vec![x])].boxed()
	};
	let mag = || {
		prop_oneof![8 => prop::sample::select(vec![b"X2".to_vec(), b"T2".to_vec(), b"id".to_vec()]), 1 => vec(any::<u8>(), 2)].boxed()
	};
	match kind {
		Kind::Address | Kind::Standard => addr(),
		Kind::Principal => principal(),
		Kind::Name => name(),
		Kind::Amount | Kind::U64 => n_bytes(8),
		Kind::U256 | Kind::Block => n_bytes(32),
		Kind::U512 => n_bytes(64),
		Kind::Sig => sig(),
		Kind::Op => any::<u8>().prop_map(|b| vec![b]).boxed(),
		Kind::DepositOut => cat(vec![mag(), op(b'<'), principal()]),
		Kind::WithdrawOut => cat(vec![mag(), op(b'>'), amount(), sig()]),
		Kind::FulfillOut => cat(vec![mag(), op(b'!'), n_bytes(32)]),
		Kind::CrDeposit => cat(vec![op(b'<'), principal(), amount()]),
		Kind::CrWithdraw => cat(vec![op(b'>'), amount(), sig(), amount()]),
	}
}

fn bytes_case_of(kinds: Vec<Kind>) -> impl Strategy<Value = BytesCase> {
	prop::sample::select(kinds)
		.prop_flat_map(|kind| {
			(
				Just(kind),
				prop_oneof![12 => shaped(kind), 1 => vec(any::<u8>(), 0..120)],
				prop_oneof![6 => Just(None), 3 => any::<u16>().prop_map(Some)],
				prop_oneof![2 => Just(vec![]), 2 => vec(any::<u8>(), 1..60)],
				portions(),
				prop::option::weighted(0.05, any::<u16>()),
			)
		})
		.prop_map(|(kind, mut bytes, cut, extra, read, fail_at)| {
			if let Some(c) = cut {
				let n = bytes.len();
				bytes.truncate(c as usize % (n + 1));
			} else {
				bytes.extend(extra);
			}
			BytesCase { kind, bytes, read, fail_at }
		})
}

fn bytes_case() -> impl Strategy<Value = BytesCase> {
	bytes_case_of(KINDS.to_vec())
}

fn ref_sig(b: &[u8]) -> Option<usize> {
	let b = b.get(..65)?;
	if b[0] > 3 {
		return None;
	}
	let order =
		hex::decode("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141").unwrap();
	(b[1..33] < order[..] && b[33..65] < order[..]).then_some(65)
}

/// How many bytes a valid value at the start of `b` takes.
fn ref_len(kind: Kind, b: &[u8]) -> Option<usize> {
	let fixed = |n: usize| (b.len() >= n).then_some(n);
	let head = |m: bool, op: u8| -> Option<usize> {
		let n = if m { 2 } else { 0 };
		if m && ![b"X2", b"T2", b"id"].iter().any(|k| b.get(..2) == Some(&k[..])) {
			return None;
		}
		(*b.get(n)? == op).then_some(n + 1)
	};
	match kind {
		Kind::Address | Kind::Standard => {
			VERSIONS.iter().any(|v| Some(&v.0) == b.first()).then_some(())?;
			fixed(21)
		}
		Kind::Principal => ref_principal(b).map(|x| x.1),
		Kind::Name => {
			let n = *b.first()? as usize;
			let s = b.get(1..1 + n)?;
			ref_contract_name(s).then_some(1 + n)
		}
		Kind::Amount | Kind::U64 => fixed(8),
		Kind::U256 | Kind::Block => fixed(32),
		Kind::U512 => fixed(64),
		Kind::Sig => ref_sig(b),
		Kind::Op => b"<>!H".contains(b.first()?).then_some(1),
		Kind::DepositOut => {
			let h = head(true, b'<')?;
			Some(h + ref_principal(&b[h..])?.1)
		}
		Kind::WithdrawOut => {
			let h = head(true, b'>')?;
			Some(h + 8 + ref_sig(b.get(h + 8..)?)?)
		}
		Kind::FulfillOut => {
			let h = head(true, b'!')?;
			fixed(h + 32)
		}
		Kind::CrDeposit => {
			let h = head(false, b'<')?;
			fixed(h + ref_principal(&b[h..])?.1 + 8)
		}
		Kind::CrWithdraw => {
			let h = head(false, b'>')?;
			ref_sig(b.get(h + 8..)?)?;
			fixed(h + 8 + 65 + 8)
		}
	}
}

/// Deserialises and serialises again.
fn lib_decode(kind: Kind, r: &mut Portions) -> io::Result<Vec<u8>> {
	fn go<T: Codec>(r: &mut Portions) -> io::Result<Vec<u8>> {
		Ok(T::codec_deserialize(r)?.serialize_to_vec())
	}
	match kind {
		Kind::Address => go::<StacksAddress>(r),
		Kind::Standard => go::<StandardPrincipalData>(r),
		Kind::Principal => go::<PrincipalData>(r),
		Kind::Name => go::<ContractName>(r),
		Kind::Amount => go::<Amount>(r),
		Kind::U64 => go::<u64>(r),
		Kind::U256 => go::<Uint256>(r),
		Kind::U512 => go::<Uint512>(r),
		Kind::Block => go::<BlockId>(r),
		Kind::Sig => go::<RecoverableSignature>(r),
		Kind::Op => go::<Opcode>(r),
		Kind::DepositOut => go::<DepositOutputData>(r),
		Kind::WithdrawOut => go::<WithdrawalRequestDataOutputData>(r),
		Kind::FulfillOut => go::<ParsedWithdrawalFulfillmentData>(r),
		Kind::CrDeposit => go::<DepositData>(r),
		Kind::CrWithdraw => go::<WithdrawalData>(r),
	}
}

fn bytes_check(c: &BytesCase) -> CheckResult {
	let want = ref_len(c.kind, &c.bytes);
	let mut r = Portions::new(&c.bytes, &c.read);
	if let Some(f) = c.fail_at {
		r.fail_at = Some(f as usize % (c.bytes.len() + 1));
	}
	let fails_within = match (r.fail_at, want) {
		(Some(f), Some(n)) => f < n,
		_ => false,
	};
	let got = lib_decode(c.kind, &mut r);
	match (want, got) {
		(Some(n), Ok(again)) => {
			ensure!(!fails_within, "a value was returned although the reader failed");
			ensure_eq!(r.taken, n, "bytes consumed by {:?}", c.kind);
			ensure_eq!(
				hex::encode(again),
				hex::encode(&c.bytes[..n]),
				"{:?} serialised again",
				c.kind
			);
		}
		(Some(_), Err(_)) if fails_within => {}
		(Some(_), Err(e)) => return Err(format!("valid {:?} refused: {e}", c.kind)),
		(None, Ok(again)) => {
			return Err(format!("malformed {:?} accepted as {}", c.kind, hex::encode(again)))
		}
		(None, Err(_)) => {}
	}
	let class = if want.is_some() { "valid" } else { "invalid" };
	Ok(Outcome::new(!c.bytes.is_empty())
		.label(format!("{:?}-{class}", c.kind))
		.label_if(fails_within, "reader-fails"))
}

pub fn c13() -> Property {
	Property::new(
		"C13",
		"A case is a wire type and bytes: shaped like the type with parts that may be off (version, type byte, name, name length, signature scalars, opcode, magic), truncated or followed by more, or arbitrary; read in portions, sometimes from a failing reader. Non-trivial when there is at least one byte. An independent decoder says how many bytes form a valid value.",
	)
	.stage(Stage::new("bytes", 1_500_000, 40_000_000, bytes_case, bytes_check))
}

// ---------------------------------------------------------------- C08

fn reveal_wire_case() -> impl Strategy<Value = WireCase> {
	let v = prop_oneof![
		(principal(), word()).prop_map(|(p, a)| Wire::CrDeposit(p, a)),
		(word(), seed32(), any::<[u8; 32]>(), word()).prop_map(|(a, k, m, f)| Wire::CrWithdraw(a, k, m, f)),
	];
	(v, vec(any::<u8>(), 0..50), portions(), portions())
		.prop_map(|(value, trail, read, write)| WireCase { value, trail, read, write })
}

pub fn c08() -> Property {
	Property::new(
		"C08",
		"round-trip: a deposit or withdrawal payload, bytes that follow, and read/write portions (all non-trivial); bytes: payloads with possibly wrong opcode, principal, signature, truncated or extended, or arbitrary bytes (non-trivial when not empty).",
	)
	.stage(Stage::new("round-trip", 300_000, 8_000_000, reveal_wire_case, wire_check))
	.stage(Stage::new(
		"bytes",
		700_000,
		20_000_000,
		|| bytes_case_of(vec![Kind::CrDeposit, Kind::CrWithdraw]),
		bytes_check,
	))
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NameCase(String);

fn name_text() -> impl Strategy<Value = String> + Clone {
	prop_oneof![
		5 => contract_name(),
		3 => "[a-zA-Z][a-zA-Z0-9_-]{36,44}",
		2 => "[a-zA-Z0-9_-]{0,45}",
		2 => "[a-zA-Z][a-zA-Z0-9_-]{0,20}[ -~][a-zA-Z0-9_-]{0,20}",
		1 => "[a-zA-Z][a-zA-Z0-9_-]{0,39}[\n\r\t \u{0}]",
		1 => "[\n\r\t \u{0}][a-zA-Z][a-zA-Z0-9_-]{0,39}",
		1 => "[a-zA-Z][a-zA-Z0-9_-]{0,10}[éßıſK٣०Ａ\u{2028}\u{85}][a-zA-Z0-9_-]{0,10}",
		1 => "_{0,3}transient_{0,2}",
		1 => "(__transient[a-z]{0,3}|[a-z]{0,3}__transient|__Transient|__transient\n)",
		1 => "\\PC{0,50}",
		1 => any::<String>(),
	]
}

fn name_check(c: &NameCase) -> CheckResult {
	let s = &c.0;
	let valid = ref_contract_name(s.as_bytes());
	for (how, got) in [
		("new", ContractName::new(s)),
		("try_from", ContractName::try_from(s.as_str())),
	] {
		match got {
			Ok(n) => {
				ensure!(valid, "{how} accepts {s:?}");
				ensure_eq!(n.to_string(), *s, "printed name");
				ensure_eq!(n.as_ref() as &str, s.as_str(), "name as reference");
				let owned: String = n.clone().into();
				ensure_eq!(owned, *s, "name as string");
				ensure_eq!(n.len(), s.len(), "length");
			}
			Err(_) => ensure!(!valid, "{how} refuses {s:?}"),
		}
	}
	Ok(Outcome::new(!s.is_empty()).label(if valid { "valid" } else { "invalid" }).label_if(
		valid && s.len() == 40,
		"longest",
	))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PrincipalText {
	addr: AddrText,
	/// text after the address: dots and names
	tail: Vec<String>,
}

fn principal_text() -> impl Strategy<Value = PrincipalText> {
	(
		crate::text::addr_text(),
		prop_oneof![
			3 => Just(vec![]),
			10 => vec(name_text(), 1),
			2 => vec(name_text(), 2..4),
		],
	)
		.prop_map(|(addr, tail)| PrincipalText { addr, tail })
}

fn principal_text_check(c: &PrincipalText) -> CheckResult {
	let addr = c.addr.text();
	let mut text = addr.clone();
	for t in &c.tail {
		text.push('.');
		text.push_str(t);
	}
	// names and addresses may themselves contain dots
	let parts: Vec<&str> = text.split('.').collect();
	let a = ref_address_parse(parts[0]);
	let want = match (&a, parts.len()) {
		(Some((v, h)), 1) => Some(Principal { version: *v, hash: *h, contract: None }),
		(Some((v, h)), 2) if ref_contract_name(parts[1].as_bytes()) => {
			Some(Principal { version: *v, hash: *h, contract: Some(parts[1].to_string()) })
		}
		_ => None,
	};
	match PrincipalData::try_from(text.clone()) {
		Ok(p) => {
			let got = Principal::of(&p);
			ensure_eq!(Some(got), want, "principal of {text:?}");
		}
		Err(e) => ensure!(
			want.is_none() || text.starts_with('s'),
			"{text:?} refused: {e}"
		),
	}
	Ok(Outcome::new(a.is_some())
		.label(match &want {
			Some(p) if p.contract.is_some() => "contract",
			Some(_) => "standard",
			None => "invalid",
		})
		.label_if(a.is_some() && want.is_none(), "good-address-bad-name"))
}

pub fn c14() -> Property {
	Property::new(
		"C14",
		"names: grammatical, over-long, with one foreign character (controls, Unicode letters and digits), variants of the transient name, arbitrary text (non-trivial when not empty); principals: an address text (canonical, varied or corrupted) followed by any number of dot-separated names (non-trivial when the address is valid).",
	)
	.assume("an address written with a lower-case leading 's' may be refused or accepted")
	.stage(Stage::new("names", 800_000, 20_000_000, || name_text().prop_map(NameCase), name_check))
	.stage(Stage::new("principals", 300_000, 8_000_000, principal_text, principal_text_check))
}

