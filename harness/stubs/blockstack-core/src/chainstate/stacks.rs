//! Stacks transactions: single-signature contract calls and token transfers.
use crate::{
	burnchains::Txid,
	codec::{Error, StacksMessageCodec},
	core::{CHAIN_ID_MAINNET, CHAIN_ID_TESTNET},
	util::hash::{sha512_256, Hash160},
	vm::{types::PrincipalData, ClarityName, ContractName, Value},
};
use secp256k1::{
	ecdsa::{RecoverableSignature, RecoveryId},
	Message, PublicKey, SECP256K1,
};
use std::io::{Read, Write};

pub use crate::types::chainstate::{
	StacksAddress, StacksPrivateKey, StacksPublicKey, C32_ADDRESS_VERSION_MAINNET_SINGLESIG,
	C32_ADDRESS_VERSION_TESTNET_SINGLESIG,
};

macro_rules! tagged {
	($(#[$m:meta])* $n:ident { $($v:ident = $x:expr),* }) => {
		$(#[$m])*
		#[repr(u8)]
		#[derive(Debug, Clone, Copy, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
		pub enum $n { $($v = $x),* }
		impl StacksMessageCodec for $n {
			fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
				(*self as u8).consensus_serialize(fd)
			}
			fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
				match u8::consensus_deserialize(fd)? {
					$($x => Ok($n::$v),)*
					x => Err(Error::DeserializeError(format!(concat!("bad ", stringify!($n), " {}"), x))),
				}
			}
		}
	};
}
tagged!(TransactionVersion { Mainnet = 0x00, Testnet = 0x80 });
tagged!(TransactionAnchorMode { OnChainOnly = 1, OffChainOnly = 2, Any = 3 });
tagged!(TransactionPostConditionMode { Allow = 1, Deny = 2 });
tagged!(TransactionPublicKeyEncoding { Compressed = 0, Uncompressed = 1 });
tagged!(SinglesigHashMode { P2PKH = 0, P2WPKH = 2 });

#[derive(Clone, PartialEq, Eq)]
pub struct MessageSignature(pub [u8; 65]);
impl MessageSignature {
	pub fn empty() -> Self {
		Self([0; 65])
	}
	pub fn as_bytes(&self) -> &[u8; 65] {
		&self.0
	}
}
impl std::fmt::Debug for MessageSignature {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str(&hex::encode(self.0))
	}
}
impl serde::Serialize for MessageSignature {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&hex::encode(self.0))
	}
}
impl<'de> serde::Deserialize<'de> for MessageSignature {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s = <String as serde::Deserialize>::deserialize(d)?;
		hex::decode(s)
			.ok()
			.and_then(|b| b.try_into().ok())
			.map(MessageSignature)
			.ok_or_else(|| serde::de::Error::custom("signature"))
	}
}

#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct SinglesigSpendingCondition {
	pub hash_mode: SinglesigHashMode,
	pub signer: Hash160,
	pub nonce: u64,
	pub tx_fee: u64,
	pub key_encoding: TransactionPublicKeyEncoding,
	pub signature: MessageSignature,
}

#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum TransactionSpendingCondition {
	Singlesig(SinglesigSpendingCondition),
}

impl TransactionSpendingCondition {
	pub fn new_singlesig_p2pkh(pubkey: StacksPublicKey) -> Option<Self> {
		let key_encoding = if pubkey.compressed {
			TransactionPublicKeyEncoding::Compressed
		} else {
			TransactionPublicKeyEncoding::Uncompressed
		};
		Some(TransactionSpendingCondition::Singlesig(SinglesigSpendingCondition {
			signer: Hash160::from_data(&pubkey.to_bytes()),
			nonce: 0,
			tx_fee: 0,
			hash_mode: SinglesigHashMode::P2PKH,
			key_encoding,
			signature: MessageSignature::empty(),
		}))
	}
	fn single(&self) -> &SinglesigSpendingCondition {
		let TransactionSpendingCondition::Singlesig(s) = self;
		s
	}
	fn single_mut(&mut self) -> &mut SinglesigSpendingCondition {
		let TransactionSpendingCondition::Singlesig(s) = self;
		s
	}
	pub fn nonce(&self) -> u64 {
		self.single().nonce
	}
	pub fn tx_fee(&self) -> u64 {
		self.single().tx_fee
	}
	pub fn set_nonce(&mut self, n: u64) {
		self.single_mut().nonce = n;
	}
	pub fn set_tx_fee(&mut self, n: u64) {
		self.single_mut().tx_fee = n;
	}
}

#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum TransactionAuth {
	Standard(TransactionSpendingCondition),
}
impl TransactionAuth {
	pub fn origin(&self) -> &TransactionSpendingCondition {
		let TransactionAuth::Standard(c) = self;
		c
	}
	pub fn origin_mut(&mut self) -> &mut TransactionSpendingCondition {
		let TransactionAuth::Standard(c) = self;
		c
	}
	pub fn set_origin_nonce(&mut self, n: u64) {
		self.origin_mut().set_nonce(n)
	}
	pub fn set_tx_fee(&mut self, n: u64) {
		self.origin_mut().set_tx_fee(n)
	}
	pub fn get_origin_nonce(&self) -> u64 {
		self.origin().nonce()
	}
	pub fn get_tx_fee(&self) -> u64 {
		self.origin().tx_fee()
	}
	fn cleared(&self) -> Self {
		let mut a = self.clone();
		let s = a.origin_mut().single_mut();
		s.nonce = 0;
		s.tx_fee = 0;
		s.signature = MessageSignature::empty();
		a
	}
}
impl StacksMessageCodec for TransactionAuth {
	fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
		4u8.consensus_serialize(fd)?;
		let s = self.origin().single();
		s.hash_mode.consensus_serialize(fd)?;
		s.signer.0.consensus_serialize(fd)?;
		s.nonce.consensus_serialize(fd)?;
		s.tx_fee.consensus_serialize(fd)?;
		s.key_encoding.consensus_serialize(fd)?;
		s.signature.0.consensus_serialize(fd)
	}
	fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
		if u8::consensus_deserialize(fd)? != 4 {
			return Err(Error::DeserializeError("only standard transactions are supported".into()));
		}
		Ok(TransactionAuth::Standard(TransactionSpendingCondition::Singlesig(SinglesigSpendingCondition {
			hash_mode: SinglesigHashMode::consensus_deserialize(fd)?,
			signer: Hash160(<[u8; 20]>::consensus_deserialize(fd)?),
			nonce: u64::consensus_deserialize(fd)?,
			tx_fee: u64::consensus_deserialize(fd)?,
			key_encoding: TransactionPublicKeyEncoding::consensus_deserialize(fd)?,
			signature: MessageSignature(<[u8; 65]>::consensus_deserialize(fd)?),
		})))
	}
}

#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct TransactionContractCall {
	pub address: StacksAddress,
	pub contract_name: ContractName,
	pub function_name: ClarityName,
	pub function_args: Vec<Value>,
}

#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct TokenTransferMemo(#[serde(with = "memo")] pub [u8; 34]);

mod memo {
	pub fn serialize<S: serde::Serializer>(v: &[u8; 34], s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&hex::encode(v))
	}
	pub fn deserialize<'de, D: serde::Deserializer<'de>>(d: D) -> Result<[u8; 34], D::Error> {
		let s = <String as serde::Deserialize>::deserialize(d)?;
		hex::decode(s).ok().and_then(|b| b.try_into().ok()).ok_or_else(|| serde::de::Error::custom("memo"))
	}
}

#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum TransactionPayload {
	TokenTransfer(PrincipalData, u64, TokenTransferMemo),
	ContractCall(TransactionContractCall),
}
impl TransactionPayload {
	pub fn new_contract_call(
		address: StacksAddress,
		contract: &str,
		function: &str,
		function_args: Vec<Value>,
	) -> Option<Self> {
		Some(TransactionPayload::ContractCall(TransactionContractCall {
			address,
			contract_name: ContractName::try_from(contract.to_string()).ok()?,
			function_name: ClarityName::try_from(function.to_string()).ok()?,
			function_args,
		}))
	}
}
impl StacksMessageCodec for TransactionPayload {
	fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
		match self {
			TransactionPayload::TokenTransfer(to, amount, memo) => {
				0u8.consensus_serialize(fd)?;
				to.consensus_serialize(fd)?;
				amount.consensus_serialize(fd)?;
				memo.0.consensus_serialize(fd)
			}
			TransactionPayload::ContractCall(c) => {
				2u8.consensus_serialize(fd)?;
				c.address.consensus_serialize(fd)?;
				c.contract_name.consensus_serialize(fd)?;
				c.function_name.consensus_serialize(fd)?;
				c.function_args.consensus_serialize(fd)
			}
		}
	}
	fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
		Ok(match u8::consensus_deserialize(fd)? {
			0 => TransactionPayload::TokenTransfer(
				PrincipalData::consensus_deserialize(fd)?,
				u64::consensus_deserialize(fd)?,
				TokenTransferMemo(<[u8; 34]>::consensus_deserialize(fd)?),
			),
			2 => TransactionPayload::ContractCall(TransactionContractCall {
				address: StacksAddress::consensus_deserialize(fd)?,
				contract_name: ContractName::consensus_deserialize(fd)?,
				function_name: ClarityName::consensus_deserialize(fd)?,
				function_args: Vec::consensus_deserialize(fd)?,
			}),
			t => return Err(Error::DeserializeError(format!("unsupported payload {t}"))),
		})
	}
}

/// Post conditions are not supported: there never are any.
#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum TransactionPostCondition {}
impl StacksMessageCodec for TransactionPostCondition {
	fn consensus_serialize<W: Write>(&self, _: &mut W) -> Result<(), Error> {
		match *self {}
	}
	fn consensus_deserialize<R: Read>(_: &mut R) -> Result<Self, Error> {
		Err(Error::DeserializeError("post conditions are not supported".into()))
	}
}

#[derive(Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct StacksTransaction {
	pub version: TransactionVersion,
	pub chain_id: u32,
	pub auth: TransactionAuth,
	pub anchor_mode: TransactionAnchorMode,
	pub post_condition_mode: TransactionPostConditionMode,
	pub post_conditions: Vec<TransactionPostCondition>,
	pub payload: TransactionPayload,
}

impl StacksTransaction {
	pub fn new(version: TransactionVersion, auth: TransactionAuth, payload: TransactionPayload) -> Self {
		Self {
			version,
			chain_id: match version {
				TransactionVersion::Mainnet => CHAIN_ID_MAINNET,
				TransactionVersion::Testnet => CHAIN_ID_TESTNET,
			},
			auth,
			anchor_mode: TransactionAnchorMode::OnChainOnly,
			post_condition_mode: TransactionPostConditionMode::Deny,
			post_conditions: vec![],
			payload,
		}
	}
	pub fn tx_len(&self) -> u64 {
		self.serialize_to_vec().len() as u64
	}
	pub fn txid(&self) -> Txid {
		Txid(sha512_256(&self.serialize_to_vec()))
	}
	pub fn set_origin_nonce(&mut self, n: u64) {
		self.auth.set_origin_nonce(n)
	}
	pub fn get_origin_nonce(&self) -> u64 {
		self.auth.get_origin_nonce()
	}
	pub fn set_tx_fee(&mut self, n: u64) {
		self.auth.set_tx_fee(n)
	}
	pub fn get_tx_fee(&self) -> u64 {
		self.auth.get_tx_fee()
	}
	pub fn set_anchor_mode(&mut self, m: TransactionAnchorMode) {
		self.anchor_mode = m;
	}
	pub fn set_post_condition_mode(&mut self, m: TransactionPostConditionMode) {
		self.post_condition_mode = m;
	}
	pub fn is_mainnet(&self) -> bool {
		self.version == TransactionVersion::Mainnet
	}
	pub fn origin_address(&self) -> StacksAddress {
		StacksAddress {
			version: match self.version {
				TransactionVersion::Mainnet => C32_ADDRESS_VERSION_MAINNET_SINGLESIG,
				TransactionVersion::Testnet => C32_ADDRESS_VERSION_TESTNET_SINGLESIG,
			},
			bytes: self.auth.origin().single().signer,
		}
	}
	/// What the origin signs
	fn sighash(&self) -> [u8; 32] {
		let mut t = self.clone();
		t.auth = t.auth.cleared();
		let mut b = t.txid().0.to_vec();
		b.push(4);
		b.extend(self.get_tx_fee().to_be_bytes());
		b.extend(self.get_origin_nonce().to_be_bytes());
		sha512_256(&b)
	}
	pub fn verify(&self) -> Result<(), Error> {
		self.verify_origin().map(|_| ())
	}
	/// Checks the signature of the origin.
	pub fn verify_origin(&self) -> Result<Txid, Error> {
		let fail = |e: &str| Error::SigningError(e.to_string());
		let s = self.auth.origin().single();
		let id = RecoveryId::from_i32(s.signature.0[0] as i32).map_err(|_| fail("recovery id"))?;
		let sig = RecoverableSignature::from_compact(&s.signature.0[1..], id).map_err(|_| fail("signature"))?;
		let key: PublicKey = SECP256K1
			.recover_ecdsa(&Message::from_slice(&self.sighash()).unwrap(), &sig)
			.map_err(|_| fail("signature does not verify"))?;
		let bytes = match s.key_encoding {
			TransactionPublicKeyEncoding::Compressed => key.serialize().to_vec(),
			TransactionPublicKeyEncoding::Uncompressed => key.serialize_uncompressed().to_vec(),
		};
		if Hash160::from_data(&bytes) != s.signer {
			return Err(fail("the signer is somebody else"));
		}
		Ok(self.txid())
	}
}
impl StacksMessageCodec for StacksTransaction {
	fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
		self.version.consensus_serialize(fd)?;
		self.chain_id.consensus_serialize(fd)?;
		self.auth.consensus_serialize(fd)?;
		self.anchor_mode.consensus_serialize(fd)?;
		self.post_condition_mode.consensus_serialize(fd)?;
		self.post_conditions.consensus_serialize(fd)?;
		self.payload.consensus_serialize(fd)
	}
	fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
		Ok(Self {
			version: TransactionVersion::consensus_deserialize(fd)?,
			chain_id: u32::consensus_deserialize(fd)?,
			auth: TransactionAuth::consensus_deserialize(fd)?,
			anchor_mode: TransactionAnchorMode::consensus_deserialize(fd)?,
			post_condition_mode: TransactionPostConditionMode::consensus_deserialize(fd)?,
			post_conditions: Vec::consensus_deserialize(fd)?,
			payload: TransactionPayload::consensus_deserialize(fd)?,
		})
	}
}

#[derive(Debug, Clone)]
pub struct StacksTransactionSigner {
	tx: StacksTransaction,
	signed: bool,
}
impl StacksTransactionSigner {
	pub fn new(tx: &StacksTransaction) -> Self {
		Self { tx: tx.clone(), signed: false }
	}
	pub fn sign_origin(&mut self, key: &StacksPrivateKey) -> Result<(), Error> {
		let m = Message::from_slice(&self.tx.sighash()).unwrap();
		let (id, sig) = SECP256K1.sign_ecdsa_recoverable(&m, &key.key).serialize_compact();
		let mut b = [0; 65];
		b[0] = id.to_i32() as u8;
		b[1..].copy_from_slice(&sig);
		self.tx.auth.origin_mut().single_mut().signature = MessageSignature(b);
		self.signed = true;
		Ok(())
	}
	pub fn get_tx(self) -> Option<StacksTransaction> {
		self.signed.then_some(self.tx)
	}
}
