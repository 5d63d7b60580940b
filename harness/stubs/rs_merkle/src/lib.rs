//! The `Hasher` trait.
pub trait Hasher: Clone {
	type Hash: Copy + PartialEq + Into<Vec<u8>> + TryFrom<Vec<u8>>;

	fn hash(data: &[u8]) -> Self::Hash;

	fn concat_and_hash(left: &Self::Hash, right: Option<&Self::Hash>) -> Self::Hash {
		let mut b: Vec<u8> = (*left).into();
		match right {
			Some(r) => {
				b.extend(Into::<Vec<u8>>::into(*r));
				Self::hash(&b)
			}
			None => *left,
		}
	}

	fn hash_size() -> usize {
		std::mem::size_of::<Self::Hash>()
	}
}
