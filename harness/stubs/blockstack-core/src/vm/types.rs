use super::{ClarityName, ContractName};
use crate::{
	codec::{Error, StacksMessageCodec},
	types::chainstate::StacksAddress,
	util::{c32_address, hash::Hash160},
};
use std::{
	collections::BTreeMap,
	fmt,
	io::{Read, Write},
};

pub const MAX_VALUE_SIZE: u32 = 1024 * 1024;
pub const BUFF_64: TypeSignature = TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(64)));
pub const BUFF_65: TypeSignature = TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(65)));
pub const BUFF_33: TypeSignature = TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(33)));
pub const BUFF_32: TypeSignature = TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(32)));
pub const BUFF_20: TypeSignature = TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(20)));
pub const BUFF_1: TypeSignature = TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(1)));

#[derive(Debug, Clone, PartialEq)]
pub enum CheckErrors {
	ValueTooLarge,
	ListTypesMustMatch,
	ExpectedName,
}
impl fmt::Display for CheckErrors {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "{self:?}")
	}
}
impl std::error::Error for CheckErrors {}
type Result<T> = std::result::Result<T, CheckErrors>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct BufferLength(pub u32);

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum SequenceSubtype {
	BufferType(BufferLength),
	ListType(ListTypeData),
	StringType(BufferLength),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum TypeSignature {
	NoType,
	IntType,
	UIntType,
	BoolType,
	SequenceType(SequenceSubtype),
	PrincipalType,
	TupleType(BTreeMap<ClarityName, TypeSignature>),
	OptionalType(Box<TypeSignature>),
	ResponseType(Box<(TypeSignature, TypeSignature)>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct ListTypeData {
	max_len: u32,
	entry_type: Box<TypeSignature>,
}
impl ListTypeData {
	pub fn new_list(entry_type: TypeSignature, max_len: u32) -> Result<Self> {
		Ok(Self { entry_type: Box::new(entry_type), max_len })
	}
	pub fn get_max_len(&self) -> u32 {
		self.max_len
	}
	pub fn get_list_item_type(&self) -> &TypeSignature {
		&self.entry_type
	}
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub struct StandardPrincipalData(pub u8, pub [u8; 20]);
impl StandardPrincipalData {
	pub fn to_address(&self) -> String {
		c32_address(self.0, &self.1)
	}
	pub fn transient() -> Self {
		Self(1, [0; 20])
	}
}
impl fmt::Display for StandardPrincipalData {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		f.write_str(&self.to_address())
	}
}
impl fmt::Debug for StandardPrincipalData {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "StandardPrincipalData({self})")
	}
}
impl From<StacksAddress> for StandardPrincipalData {
	fn from(a: StacksAddress) -> Self {
		Self(a.version, a.bytes.0)
	}
}
impl From<StandardPrincipalData> for StacksAddress {
	fn from(a: StandardPrincipalData) -> Self {
		Self { version: a.0, bytes: Hash160(a.1) }
	}
}
impl From<StandardPrincipalData> for Value {
	fn from(p: StandardPrincipalData) -> Self {
		Value::Principal(p.into())
	}
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub struct QualifiedContractIdentifier {
	pub issuer: StandardPrincipalData,
	pub name: ContractName,
}
impl QualifiedContractIdentifier {
	pub fn new(issuer: StandardPrincipalData, name: ContractName) -> Self {
		Self { issuer, name }
	}
}
impl fmt::Display for QualifiedContractIdentifier {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "{}.{}", self.issuer, self.name)
	}
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub enum PrincipalData {
	Standard(StandardPrincipalData),
	Contract(QualifiedContractIdentifier),
}
impl PrincipalData {
	pub fn version(&self) -> u8 {
		match self {
			PrincipalData::Standard(s) => s.0,
			PrincipalData::Contract(c) => c.issuer.0,
		}
	}
}
impl fmt::Display for PrincipalData {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		match self {
			PrincipalData::Standard(s) => s.fmt(f),
			PrincipalData::Contract(c) => c.fmt(f),
		}
	}
}
impl From<StandardPrincipalData> for PrincipalData {
	fn from(p: StandardPrincipalData) -> Self {
		PrincipalData::Standard(p)
	}
}
impl From<StacksAddress> for PrincipalData {
	fn from(a: StacksAddress) -> Self {
		PrincipalData::Standard(a.into())
	}
}
impl From<QualifiedContractIdentifier> for PrincipalData {
	fn from(c: QualifiedContractIdentifier) -> Self {
		PrincipalData::Contract(c)
	}
}
impl StacksMessageCodec for PrincipalData {
	fn consensus_serialize<W: Write>(&self, fd: &mut W) -> std::result::Result<(), Error> {
		match self {
			PrincipalData::Standard(s) => {
				5u8.consensus_serialize(fd)?;
				s.0.consensus_serialize(fd)?;
				s.1.consensus_serialize(fd)
			}
			PrincipalData::Contract(c) => {
				6u8.consensus_serialize(fd)?;
				c.issuer.0.consensus_serialize(fd)?;
				c.issuer.1.consensus_serialize(fd)?;
				c.name.consensus_serialize(fd)
			}
		}
	}
	fn consensus_deserialize<R: Read>(fd: &mut R) -> std::result::Result<Self, Error> {
		match Value::consensus_deserialize(fd)? {
			Value::Principal(p) => Ok(p),
			_ => Err(Error::DeserializeError("Bad principal prefix".into())),
		}
	}
}

#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct BuffData {
	pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct ListData {
	pub data: Vec<Value>,
	pub type_signature: ListTypeData,
}
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct ASCIIData {
	pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct UTF8Data {
	pub data: Vec<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum CharType {
	ASCII(ASCIIData),
	UTF8(UTF8Data),
}
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum SequenceData {
	Buffer(BuffData),
	List(ListData),
	String(CharType),
}
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct OptionalData {
	pub data: Option<Box<Value>>,
}
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct ResponseData {
	pub committed: bool,
	pub data: Box<Value>,
}
#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct TupleData {
	pub data_map: BTreeMap<ClarityName, Value>,
}

#[derive(Clone, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Value {
	Int(i128),
	UInt(u128),
	Bool(bool),
	Sequence(SequenceData),
	Principal(PrincipalData),
	Tuple(TupleData),
	Optional(OptionalData),
	Response(ResponseData),
}

pub const NONE: Value = Value::Optional(OptionalData { data: None });

impl Value {
	pub fn none() -> Self {
		NONE
	}
	pub fn some(v: Value) -> Result<Self> {
		Ok(Value::Optional(OptionalData { data: Some(Box::new(v)) }))
	}
	pub fn okay(v: Value) -> Result<Self> {
		Ok(Value::Response(ResponseData { committed: true, data: Box::new(v) }))
	}
	pub fn error(v: Value) -> Result<Self> {
		Ok(Value::Response(ResponseData { committed: false, data: Box::new(v) }))
	}
	pub fn buff_from(data: Vec<u8>) -> Result<Self> {
		if data.len() > MAX_VALUE_SIZE as usize {
			return Err(CheckErrors::ValueTooLarge);
		}
		Ok(Value::Sequence(SequenceData::Buffer(BuffData { data })))
	}
	pub fn buff_from_byte(b: u8) -> Self {
		Value::Sequence(SequenceData::Buffer(BuffData { data: vec![b] }))
	}
	/// A list without a declared type
	pub fn list_from(data: Vec<Value>) -> Result<Self> {
		let n = data.len() as u32;
		let entry = data.iter().map(Value::size_type).max_by_key(|t| t.1).map_or(TypeSignature::NoType, |t| t.0);
		Self::list_with_type(data, ListTypeData::new_list(entry, n)?)
	}
	pub fn cons_list_unsanitized(data: Vec<Value>) -> Result<Self> {
		Self::list_from(data)
	}
	pub fn list_with_type(data: Vec<Value>, type_signature: ListTypeData) -> Result<Self> {
		if data.len() > type_signature.max_len as usize {
			return Err(CheckErrors::ListTypesMustMatch);
		}
		Ok(Value::Sequence(SequenceData::List(ListData { data, type_signature })))
	}
	fn size_type(&self) -> (TypeSignature, usize) {
		match self {
			Value::Int(_) => (TypeSignature::IntType, 16),
			Value::UInt(_) => (TypeSignature::UIntType, 16),
			Value::Bool(_) => (TypeSignature::BoolType, 1),
			Value::Principal(_) => (TypeSignature::PrincipalType, 1),
			Value::Sequence(SequenceData::Buffer(b)) => (
				TypeSignature::SequenceType(SequenceSubtype::BufferType(BufferLength(b.data.len() as u32))),
				b.data.len(),
			),
			Value::Sequence(SequenceData::List(l)) => {
				(TypeSignature::SequenceType(SequenceSubtype::ListType(l.type_signature.clone())), l.data.len())
			}
			_ => (TypeSignature::NoType, 0),
		}
	}
	pub fn serialize_to_vec(&self) -> Vec<u8> {
		StacksMessageCodec::serialize_to_vec(self)
	}
	pub fn serialize_to_hex(&self) -> String {
		hex::encode(self.serialize_to_vec())
	}
}

impl From<PrincipalData> for Value {
	fn from(p: PrincipalData) -> Self {
		Value::Principal(p)
	}
}
impl From<StacksAddress> for Value {
	fn from(p: StacksAddress) -> Self {
		Value::Principal(p.into())
	}
}
impl From<TupleData> for Value {
	fn from(t: TupleData) -> Self {
		Value::Tuple(t)
	}
}
impl TupleData {
	pub fn from_data(data: Vec<(ClarityName, Value)>) -> Result<Self> {
		Ok(Self { data_map: data.into_iter().collect() })
	}
}

impl fmt::Display for Value {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		match self {
			Value::Int(i) => write!(f, "{i}"),
			Value::UInt(i) => write!(f, "u{i}"),
			Value::Bool(b) => write!(f, "{b}"),
			Value::Principal(p) => write!(f, "{p}"),
			Value::Sequence(SequenceData::Buffer(b)) => write!(f, "0x{}", hex::encode(&b.data)),
			Value::Sequence(SequenceData::List(l)) => {
				f.write_str("(")?;
				for (i, v) in l.data.iter().enumerate() {
					if i > 0 {
						f.write_str(" ")?;
					}
					write!(f, "{v}")?;
				}
				f.write_str(")")
			}
			Value::Sequence(SequenceData::String(CharType::ASCII(s))) => {
				write!(f, "{:?}", String::from_utf8_lossy(&s.data))
			}
			Value::Sequence(SequenceData::String(CharType::UTF8(s))) => {
				write!(f, "u{:?}", String::from_utf8_lossy(&s.data.concat()))
			}
			Value::Tuple(t) => {
				f.write_str("(tuple")?;
				for (k, v) in &t.data_map {
					write!(f, " ({k} {v})")?;
				}
				f.write_str(")")
			}
			Value::Optional(OptionalData { data: None }) => f.write_str("none"),
			Value::Optional(OptionalData { data: Some(v) }) => write!(f, "(some {v})"),
			Value::Response(r) => write!(f, "({} {})", if r.committed { "ok" } else { "err" }, r.data),
		}
	}
}

impl StacksMessageCodec for Value {
	fn consensus_serialize<W: Write>(&self, fd: &mut W) -> std::result::Result<(), Error> {
		let bytes = |fd: &mut W, t: u8, d: &[u8]| {
			t.consensus_serialize(fd)?;
			(d.len() as u32).consensus_serialize(fd)?;
			fd.write_all(d).map_err(Error::WriteError)
		};
		match self {
			Value::Int(i) => {
				0u8.consensus_serialize(fd)?;
				i.consensus_serialize(fd)
			}
			Value::UInt(i) => {
				1u8.consensus_serialize(fd)?;
				i.consensus_serialize(fd)
			}
			Value::Bool(b) => (if *b { 3u8 } else { 4 }).consensus_serialize(fd),
			Value::Principal(p) => p.consensus_serialize(fd),
			Value::Sequence(SequenceData::Buffer(b)) => bytes(fd, 2, &b.data),
			Value::Sequence(SequenceData::List(l)) => {
				11u8.consensus_serialize(fd)?;
				l.data.consensus_serialize(fd)
			}
			Value::Sequence(SequenceData::String(CharType::ASCII(s))) => bytes(fd, 13, &s.data),
			Value::Sequence(SequenceData::String(CharType::UTF8(s))) => bytes(fd, 14, &s.data.concat()),
			Value::Tuple(t) => {
				12u8.consensus_serialize(fd)?;
				(t.data_map.len() as u32).consensus_serialize(fd)?;
				for (k, v) in &t.data_map {
					k.consensus_serialize(fd)?;
					v.consensus_serialize(fd)?;
				}
				Ok(())
			}
			Value::Optional(OptionalData { data: None }) => 9u8.consensus_serialize(fd),
			Value::Optional(OptionalData { data: Some(v) }) => {
				10u8.consensus_serialize(fd)?;
				v.consensus_serialize(fd)
			}
			Value::Response(r) => {
				(if r.committed { 7u8 } else { 8 }).consensus_serialize(fd)?;
				r.data.consensus_serialize(fd)
			}
		}
	}
	fn consensus_deserialize<R: Read>(fd: &mut R) -> std::result::Result<Self, Error> {
		let bytes = |fd: &mut R| -> std::result::Result<Vec<u8>, Error> {
			let n = u32::consensus_deserialize(fd)?;
			if n > MAX_VALUE_SIZE {
				return Err(Error::DeserializeError("too long".into()));
			}
			let mut b = vec![0; n as usize];
			fd.read_exact(&mut b)?;
			Ok(b)
		};
		let standard = |fd: &mut R| -> std::result::Result<StandardPrincipalData, Error> {
			Ok(StandardPrincipalData(u8::consensus_deserialize(fd)?, <[u8; 20]>::consensus_deserialize(fd)?))
		};
		Ok(match u8::consensus_deserialize(fd)? {
			0 => Value::Int(i128::consensus_deserialize(fd)?),
			1 => Value::UInt(u128::consensus_deserialize(fd)?),
			2 => Value::Sequence(SequenceData::Buffer(BuffData { data: bytes(fd)? })),
			3 => Value::Bool(true),
			4 => Value::Bool(false),
			5 => Value::Principal(PrincipalData::Standard(standard(fd)?)),
			6 => Value::Principal(PrincipalData::Contract(QualifiedContractIdentifier {
				issuer: standard(fd)?,
				name: ContractName::consensus_deserialize(fd)?,
			})),
			t @ (7 | 8) => Value::Response(ResponseData {
				committed: t == 7,
				data: Box::new(Value::consensus_deserialize(fd)?),
			}),
			9 => NONE,
			10 => Value::Optional(OptionalData { data: Some(Box::new(Value::consensus_deserialize(fd)?)) }),
			11 => Value::list_from(Vec::<Value>::consensus_deserialize(fd)?)
				.map_err(|e| Error::DeserializeError(e.to_string()))?,
			12 => {
				let n = u32::consensus_deserialize(fd)?;
				let mut data_map = BTreeMap::new();
				for _ in 0..n {
					data_map.insert(ClarityName::consensus_deserialize(fd)?, Value::consensus_deserialize(fd)?);
				}
				Value::Tuple(TupleData { data_map })
			}
			13 => Value::Sequence(SequenceData::String(CharType::ASCII(ASCIIData { data: bytes(fd)? }))),
			14 => {
				let s = String::from_utf8(bytes(fd)?).map_err(|e| Error::DeserializeError(e.to_string()))?;
				let data = s.chars().map(|c| c.to_string().into_bytes()).collect();
				Value::Sequence(SequenceData::String(CharType::UTF8(UTF8Data { data })))
			}
			t => return Err(Error::DeserializeError(format!("bad type prefix {t}"))),
		})
	}
}
