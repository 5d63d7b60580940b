pub mod types;

use std::{borrow::Borrow, fmt, ops::Deref};

pub use types::Value;

macro_rules! name {
	($n:ident, $max:expr) => {
		/// A name as the language allows it.
		#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
		pub struct $n(String);
		impl $n {
			pub fn as_str(&self) -> &str {
				&self.0
			}
			pub fn len(&self) -> u8 {
				self.0.len() as u8
			}
			pub fn is_empty(&self) -> bool {
				self.0.is_empty()
			}
		}
		impl TryFrom<String> for $n {
			type Error = String;
			fn try_from(s: String) -> Result<Self, String> {
				let ok = s.len() <= $max
					&& s.starts_with(|c: char| c.is_ascii_alphabetic())
					&& s.chars().all(|c| c.is_ascii_alphanumeric() || "_-!?+<>=/*".contains(c));
				if ok || ["-", "+", "=", "/", "*", "<", ">", "<=", ">="].contains(&s.as_str()) || s == "__transient" {
					Ok($n(s))
				} else {
					Err(format!("Bad {}: {s}", stringify!($n)))
				}
			}
		}
		impl From<&str> for $n {
			fn from(s: &str) -> Self {
				Self::try_from(s.to_string()).unwrap()
			}
		}
		impl From<$n> for String {
			fn from(s: $n) -> String {
				s.0
			}
		}
		impl Deref for $n {
			type Target = str;
			fn deref(&self) -> &str {
				&self.0
			}
		}
		impl Borrow<str> for $n {
			fn borrow(&self) -> &str {
				&self.0
			}
		}
		impl AsRef<str> for $n {
			fn as_ref(&self) -> &str {
				&self.0
			}
		}
		impl fmt::Display for $n {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
				f.write_str(&self.0)
			}
		}
		impl fmt::Debug for $n {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
				f.write_str(&self.0)
			}
		}
		impl crate::codec::StacksMessageCodec for $n {
			fn consensus_serialize<W: std::io::Write>(&self, fd: &mut W) -> Result<(), crate::codec::Error> {
				self.len().consensus_serialize(fd)?;
				fd.write_all(self.0.as_bytes()).map_err(crate::codec::Error::WriteError)
			}
			fn consensus_deserialize<R: std::io::Read>(fd: &mut R) -> Result<Self, crate::codec::Error> {
				let n = u8::consensus_deserialize(fd)?;
				let mut b = vec![0; n as usize];
				fd.read_exact(&mut b)?;
				String::from_utf8(b)
					.map_err(|e| e.to_string())
					.and_then(Self::try_from)
					.map_err(crate::codec::Error::DeserializeError)
			}
		}
	};
}
name!(ClarityName, 128);
name!(ContractName, 40);
