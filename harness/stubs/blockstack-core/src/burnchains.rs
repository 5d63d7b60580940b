use std::fmt;

/// A Stacks transaction id.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Txid(pub [u8; 32]);

impl Txid {
	pub fn as_bytes(&self) -> &[u8; 32] {
		&self.0
	}
	pub fn to_bytes(&self) -> [u8; 32] {
		self.0
	}
	pub fn from_bytes(b: &[u8]) -> Option<Self> {
		b.try_into().ok().map(Txid)
	}
	pub fn from_hex(s: &str) -> Result<Self, crate::util::HexError> {
		hex::decode(s)
			.ok()
			.and_then(|b| Self::from_bytes(&b))
			.ok_or_else(|| crate::util::HexError::BadLength(s.len()))
	}
	pub fn to_hex(&self) -> String {
		hex::encode(self.0)
	}
}

impl fmt::Display for Txid {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		f.write_str(&self.to_hex())
	}
}
impl fmt::Debug for Txid {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		f.write_str(&self.to_hex())
	}
}
impl AsRef<[u8]> for Txid {
	fn as_ref(&self) -> &[u8] {
		&self.0
	}
}
impl From<[u8; 32]> for Txid {
	fn from(b: [u8; 32]) -> Self {
		Txid(b)
	}
}
impl serde::Serialize for Txid {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&self.to_hex())
	}
}
impl<'de> serde::Deserialize<'de> for Txid {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s = <String as serde::Deserialize>::deserialize(d)?;
		Self::from_hex(&s).map_err(serde::de::Error::custom)
	}
}
