pub mod chainstate {
	use crate::{
		codec::{Error, StacksMessageCodec},
		util::{c32_address, hash::Hash160},
	};
	use secp256k1::{PublicKey, SecretKey, SECP256K1};
	use std::{
		fmt,
		io::{Read, Write},
	};

	pub const C32_ADDRESS_VERSION_MAINNET_SINGLESIG: u8 = 22;
	pub const C32_ADDRESS_VERSION_MAINNET_MULTISIG: u8 = 20;
	pub const C32_ADDRESS_VERSION_TESTNET_SINGLESIG: u8 = 26;
	pub const C32_ADDRESS_VERSION_TESTNET_MULTISIG: u8 = 21;

	#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
	pub struct StacksAddress {
		pub version: u8,
		pub bytes: Hash160,
	}
	impl StacksAddress {
		pub fn new(version: u8, bytes: Hash160) -> Self {
			Self { version, bytes }
		}
	}
	impl fmt::Display for StacksAddress {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			f.write_str(&c32_address(self.version, &self.bytes.0))
		}
	}
	impl fmt::Debug for StacksAddress {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			fmt::Display::fmt(self, f)
		}
	}
	impl StacksMessageCodec for StacksAddress {
		fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
			self.version.consensus_serialize(fd)?;
			self.bytes.0.consensus_serialize(fd)
		}
		fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
			Ok(Self {
				version: u8::consensus_deserialize(fd)?,
				bytes: Hash160(<[u8; 20]>::consensus_deserialize(fd)?),
			})
		}
	}

	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct StacksPublicKey {
		pub(crate) key: PublicKey,
		pub(crate) compressed: bool,
	}
	impl StacksPublicKey {
		pub fn from_slice(b: &[u8]) -> Result<Self, &'static str> {
			PublicKey::from_slice(b)
				.map(|key| Self { key, compressed: b.len() == 33 })
				.map_err(|_| "Invalid public key: failed to load")
		}
		pub fn from_private(k: &StacksPrivateKey) -> Self {
			Self { key: PublicKey::from_secret_key(SECP256K1, &k.key), compressed: k.compressed }
		}
		pub fn to_bytes(&self) -> Vec<u8> {
			if self.compressed {
				self.key.serialize().to_vec()
			} else {
				self.key.serialize_uncompressed().to_vec()
			}
		}
		pub fn to_bytes_compressed(&self) -> Vec<u8> {
			self.key.serialize().to_vec()
		}
	}

	#[derive(Clone, Copy, PartialEq, Eq)]
	pub struct StacksPrivateKey {
		pub(crate) key: SecretKey,
		pub(crate) compressed: bool,
	}
	impl StacksPrivateKey {
		/// 32 bytes, or 33 with a 1 at the end: a key whose public key is compressed
		pub fn from_slice(b: &[u8]) -> Result<Self, &'static str> {
			if b.len() < 32 {
				return Err("Invalid private key: shorter than 32 bytes");
			}
			if b.len() > 33 {
				return Err("Invalid private key: greater than 33 bytes");
			}
			if b.len() == 33 && b[32] != 1 {
				return Err("Invalid private key: invalid compressed byte marker");
			}
			SecretKey::from_slice(&b[..32])
				.map(|key| Self { key, compressed: b.len() == 33 })
				.map_err(|_| "Invalid private key: failed to load")
		}
		pub fn set_compress_public(&mut self, c: bool) {
			self.compressed = c;
		}
	}

	pub use crate::burnchains::Txid as StacksTxId;

	macro_rules! id {
		($($n:ident),*) => { $(
			#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
			pub struct $n(pub [u8; 32]);
			impl $n {
				pub fn from_bytes(b: &[u8]) -> Option<Self> { b.try_into().ok().map($n) }
				pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
				pub fn to_hex(&self) -> String { hex::encode(self.0) }
			}
			impl fmt::Display for $n {
				fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.to_hex()) }
			}
		)* };
	}
	id!(StacksBlockId, BlockHeaderHash, BurnchainHeaderHash, ConsensusHash);
}
pub use chainstate::{StacksPrivateKey, StacksPublicKey};
