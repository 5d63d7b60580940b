use std::{
	fmt,
	io::{self, Read, Write},
};

#[derive(Debug)]
pub enum Error {
	SerializeError(String),
	ReadError(io::Error),
	WriteError(io::Error),
	DeserializeError(String),
	OverflowError(String),
	UnderflowError(String),
	ArrayTooLong,
	SigningError(String),
	GenericError(String),
}
impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "{self:?}")
	}
}
impl std::error::Error for Error {}
impl From<io::Error> for Error {
	fn from(e: io::Error) -> Self {
		Error::ReadError(e)
	}
}

pub const MAX_MESSAGE_LEN: u32 = 16 * 1024 * 1024;

pub trait StacksMessageCodec {
	fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error>
	where
		Self: Sized;
	fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error>
	where
		Self: Sized;
	fn serialize_to_vec(&self) -> Vec<u8>
	where
		Self: Sized,
	{
		let mut v = vec![];
		self.consensus_serialize(&mut v).expect("BUG: serialization to buffer failed.");
		v
	}
}

macro_rules! int {
	($($t:ty),*) => { $(
		impl StacksMessageCodec for $t {
			fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
				fd.write_all(&self.to_be_bytes()).map_err(Error::WriteError)
			}
			fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
				let mut b = [0; std::mem::size_of::<$t>()];
				fd.read_exact(&mut b)?;
				Ok(<$t>::from_be_bytes(b))
			}
		}
	)* };
}
int!(u8, u16, u32, u64, u128, i128);

impl<const N: usize> StacksMessageCodec for [u8; N] {
	fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
		fd.write_all(self).map_err(Error::WriteError)
	}
	fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
		let mut b = [0; N];
		fd.read_exact(&mut b)?;
		Ok(b)
	}
}

impl<T: StacksMessageCodec> StacksMessageCodec for Vec<T> {
	fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
		(self.len() as u32).consensus_serialize(fd)?;
		self.iter().try_for_each(|x| x.consensus_serialize(fd))
	}
	fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
		let n = u32::consensus_deserialize(fd)?;
		if n > MAX_MESSAGE_LEN {
			return Err(Error::ArrayTooLong);
		}
		(0..n).map(|_| T::consensus_deserialize(fd)).collect()
	}
}

pub fn write_next<T: StacksMessageCodec, W: Write>(fd: &mut W, item: &T) -> Result<(), Error> {
	item.consensus_serialize(fd)
}

pub fn read_next<T: StacksMessageCodec, R: Read>(fd: &mut R) -> Result<T, Error> {
	T::consensus_deserialize(fd)
}
