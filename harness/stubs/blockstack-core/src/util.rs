use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum HexError {
	BadLength(usize),
	BadCharacter(char),
}
impl fmt::Display for HexError {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		match self {
			HexError::BadLength(n) => write!(f, "bad length {n} for hex string"),
			HexError::BadCharacter(c) => write!(f, "bad character {c} in hex string"),
		}
	}
}
impl std::error::Error for HexError {}

pub mod hash {
	use super::HexError;
	use ripemd::Ripemd160;
	use sha2::{Digest, Sha256, Sha512_256};

	#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
	pub struct Hash160(pub [u8; 20]);

	impl Hash160 {
		pub fn from_data(d: &[u8]) -> Self {
			Hash160(Ripemd160::digest(Sha256::digest(d)).into())
		}
		pub fn as_bytes(&self) -> &[u8; 20] {
			&self.0
		}
		pub fn from_bytes(b: &[u8]) -> Option<Self> {
			b.try_into().ok().map(Hash160)
		}
		pub fn to_hex(&self) -> String {
			hex::encode(self.0)
		}
	}

	pub fn sha512_256(d: &[u8]) -> [u8; 32] {
		Sha512_256::digest(d).into()
	}

	pub fn to_hex(b: &[u8]) -> String {
		hex::encode(b)
	}

	pub fn hex_bytes(s: &str) -> Result<Vec<u8>, HexError> {
		hex::decode(s).map_err(|_| HexError::BadLength(s.len()))
	}
}

/// c32check text of an address.
pub(crate) fn c32_address(version: u8, data: &[u8]) -> String {
	use sha2::{Digest, Sha256};
	const A: &[u8; 32] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";
	let mut v = vec![version];
	v.extend(data);
	let sum = Sha256::digest(Sha256::digest(&v));
	let mut b = data.to_vec();
	b.extend(&sum[..4]);
	// the number in base 32, then a zero digit for each leading zero byte
	let zeros = b.iter().take_while(|x| **x == 0).count();
	let mut digits = vec![];
	let mut n = b;
	while n.iter().any(|x| *x != 0) {
		let mut rem = 0u32;
		for x in n.iter_mut() {
			let cur = rem << 8 | *x as u32;
			*x = (cur / 32) as u8;
			rem = cur % 32;
		}
		digits.push(A[rem as usize]);
	}
	digits.extend(std::iter::repeat(b'0').take(zeros));
	digits.reverse();
	format!("S{}{}", A[version as usize & 31] as char, String::from_utf8(digits).unwrap())
}
