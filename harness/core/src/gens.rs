//! Generators and plain-data recipes for the values the checks need.
use bdk::bitcoin::{
	blockdata::script::Builder,
	hashes::{sha256, Hash},
	secp256k1::{PublicKey, Secp256k1, SecretKey},
	util::address::{Payload, WitnessVersion},
	Address, Network, PubkeyHash, ScriptHash, XOnlyPublicKey,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use stacks_core::{
	address::{AddressVersion, StacksAddress},
	contract_name::ContractName,
	crypto::{hash160::Hash160Hasher, Hashing},
	utils::{PrincipalData, StandardPrincipalData},
};

pub const NETS: [Network; 4] =
	[Network::Bitcoin, Network::Testnet, Network::Signet, Network::Regtest];

pub fn net(i: u8) -> Network {
	NETS[i as usize % 4]
}

pub fn magic(n: Network) -> [u8; 2] {
	// documented wire values, written down independently of the library
	match n {
		Network::Bitcoin => *b"X2",
		Network::Testnet => *b"T2",
		_ => *b"id",
	}
}

/// A secret key from 32 arbitrary bytes (rehash until valid).
pub fn sk(seed: &[u8; 32]) -> SecretKey {
	let mut s = *seed;
	loop {
		if let Ok(k) = SecretKey::from_slice(&s) {
			return k;
		}
		s = sha256::Hash::hash(&s).into_inner();
	}
}

pub fn pk(seed: &[u8; 32]) -> PublicKey {
	PublicKey::from_secret_key(&Secp256k1::new(), &sk(seed))
}

pub fn xonly(seed: &[u8; 32]) -> XOnlyPublicKey {
	pk(seed).x_only_public_key().0
}

pub fn seed32() -> impl Strategy<Value = [u8; 32]> + Clone {
	prop_oneof![
		8 => any::<[u8; 32]>(),
		1 => (1u8..=20).prop_map(|n| { let mut a = [0u8; 32]; a[31] = n; a }),
		1 => (any::<u8>()).prop_map(|n| {
			// just below the group order
			let mut a: [u8; 32] = hex::decode("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364100").unwrap().try_into().unwrap();
			a[31] = 0x40u8.saturating_sub(n % 0x40);
			a
		}),
	]
}

/// 20 bytes, often with leading zero bytes.
pub fn hash20() -> impl Strategy<Value = [u8; 20]> + Clone {
	prop_oneof![
		4 => any::<[u8; 20]>(),
		3 => (any::<[u8; 20]>(), 1usize..=20).prop_map(|(mut a, n)| { for b in &mut a[..n] { *b = 0 } a }),
		1 => (any::<[u8; 20]>(), 0usize..20).prop_map(|(mut a, n)| { for b in &mut a[n..] { *b = 0 } a }),
		1 => Just([0u8; 20]),
		1 => Just([0xff; 20]),
	]
}

pub const VERSIONS: [(u8, AddressVersion); 4] = [
	(22, AddressVersion::MainnetSingleSig),
	(20, AddressVersion::MainnetMultiSig),
	(26, AddressVersion::TestnetSingleSig),
	(21, AddressVersion::TestnetMultiSig),
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Principal {
	pub version: u8,
	pub hash: [u8; 20],
	pub contract: Option<String>,
}

impl Principal {
	pub fn version(&self) -> AddressVersion {
		VERSIONS.iter().find(|v| v.0 == self.version).unwrap().1
	}
	pub fn address(&self) -> StacksAddress {
		StacksAddress::new(self.version(), Hash160Hasher::from_bytes(&self.hash).unwrap())
	}
	pub fn build(&self) -> PrincipalData {
		let std = StandardPrincipalData::new(self.version(), self.address());
		match &self.contract {
			None => PrincipalData::Standard(std),
			Some(n) => PrincipalData::Contract(std, ContractName::new(n).unwrap()),
		}
	}
	/// Documented wire form.
	pub fn wire(&self) -> Vec<u8> {
		let mut v = vec![if self.contract.is_some() { 6 } else { 5 }, self.version];
		v.extend(self.hash);
		if let Some(n) = &self.contract {
			v.push(n.len() as u8);
			v.extend(n.bytes());
		}
		v
	}
	/// Reads what the library says a principal is.
	pub fn of(p: &PrincipalData) -> Self {
		let of_std = |s: &StandardPrincipalData| {
			let h: [u8; 20] = s.1.hash().as_ref().try_into().unwrap();
			(s.1.version() as u8, h, s.0 as u8)
		};
		match p {
			PrincipalData::Standard(s) => {
				let (version, hash, v2) = of_std(s);
				assert_eq!(version, v2, "principal's two versions differ");
				Self { version, hash, contract: None }
			}
			PrincipalData::Contract(s, n) => {
				let (version, hash, v2) = of_std(s);
				assert_eq!(version, v2, "principal's two versions differ");
				Self { version, hash, contract: Some(n.to_string()) }
			}
		}
	}
}

pub fn contract_name() -> impl Strategy<Value = String> + Clone {
	prop_oneof![
		6 => "[a-zA-Z][a-zA-Z0-9_-]{0,39}",
		2 => "[a-zA-Z][a-zA-Z0-9_-]{39}",
		1 => "[a-zA-Z]",
		1 => Just("__transient".to_string()),
	]
}

pub fn version() -> impl Strategy<Value = u8> + Clone {
	prop::sample::select(vec![22u8, 26, 20, 21])
}

pub fn principal() -> impl Strategy<Value = Principal> + Clone {
	(version(), hash20(), prop::option::of(contract_name()))
		.prop_map(|(version, hash, contract)| Principal { version, hash, contract })
}

/// A Bitcoin address recipe.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Addr {
	P2pkh([u8; 20]),
	P2sh([u8; 20]),
	P2wpkh([u8; 20]),
	P2wsh([u8; 32]),
	P2tr([u8; 32]),
	/// later witness versions: version 2..=16, program of 2..=40 bytes
	Future(u8, Vec<u8>),
}

impl Addr {
	pub fn build(&self, network: Network) -> Address {
		let wp = |version: WitnessVersion, program: &[u8]| Payload::WitnessProgram {
			version,
			program: program.to_vec(),
		};
		let payload = match self {
			Addr::P2pkh(h) => Payload::PubkeyHash(PubkeyHash::from_slice(h).unwrap()),
			Addr::P2sh(h) => Payload::ScriptHash(ScriptHash::from_slice(h).unwrap()),
			Addr::P2wpkh(h) => wp(WitnessVersion::V0, h),
			Addr::P2wsh(h) => wp(WitnessVersion::V0, h),
			Addr::P2tr(k) => wp(WitnessVersion::V1, &xonly(k).serialize()),
			Addr::Future(v, p) => wp(WitnessVersion::try_from(*v).unwrap(), p),
		};
		Address { payload, network }
	}
	/// Independent construction of the output script.
	pub fn script(&self) -> Vec<u8> {
		let prog = |v: u8, p: &[u8]| {
			let mut s = vec![if v == 0 { 0 } else { 0x50 + v }, p.len() as u8];
			s.extend(p);
			s
		};
		match self {
			Addr::P2pkh(h) => {
				let mut s = vec![0x76, 0xa9, 20];
				s.extend(h);
				s.extend([0x88, 0xac]);
				s
			}
			Addr::P2sh(h) => {
				let mut s = vec![0xa9, 20];
				s.extend(h);
				s.push(0x87);
				s
			}
			Addr::P2wpkh(h) => prog(0, h),
			Addr::P2wsh(h) => prog(0, h),
			Addr::P2tr(k) => prog(1, &xonly(k).serialize()),
			Addr::Future(v, p) => prog(*v, p),
		}
	}
	/// Bitcoin Core's dust limit for this output at the default relay fee.
	pub fn dust(&self) -> u64 {
		let script = self.script();
		let out = 8 + 1 + script.len() as u64; // value, script length, script
		let witness = !matches!(self, Addr::P2pkh(_) | Addr::P2sh(_));
		3 * (out + if witness { 67 } else { 148 })
	}
	pub fn kind(&self) -> &'static str {
		match self {
			Addr::P2pkh(_) => "p2pkh",
			Addr::P2sh(_) => "p2sh",
			Addr::P2wpkh(_) => "p2wpkh",
			Addr::P2wsh(_) => "p2wsh",
			Addr::P2tr(_) => "p2tr",
			Addr::Future(..) => "future",
		}
	}
}

pub fn addr() -> impl Strategy<Value = Addr> + Clone {
	prop_oneof![
		2 => any::<[u8; 20]>().prop_map(Addr::P2pkh),
		2 => any::<[u8; 20]>().prop_map(Addr::P2sh),
		3 => any::<[u8; 20]>().prop_map(Addr::P2wpkh),
		2 => any::<[u8; 32]>().prop_map(Addr::P2wsh),
		3 => any::<[u8; 32]>().prop_map(Addr::P2tr),
		1 => (2u8..=16, vec(any::<u8>(), 2..=40)).prop_map(|(v, p)| Addr::Future(v, p)),
	]
}

/// Amounts biased to boundaries.
pub fn amount_any() -> impl Strategy<Value = u64> + Clone {
	prop_oneof![
		3 => any::<u64>(),
		3 => 0u64..=2_100_000_000_000_000,
		2 => (0u32..64, -2i64..=2).prop_map(|(s, d)| (1u64 << s).wrapping_add(d as u64)),
		1 => Just(0),
		1 => Just(u64::MAX),
	]
}

/// Script for arbitrary witness program etc. for tests of parse.
pub fn op_return(data: &[u8]) -> Vec<u8> {
	Builder::new()
		.push_opcode(bdk::bitcoin::blockdata::opcodes::all::OP_RETURN)
		.push_slice(data)
		.into_script()
		.into_bytes()
}
