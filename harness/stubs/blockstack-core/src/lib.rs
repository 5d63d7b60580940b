//! Clarity values, principals, Stacks transactions and their consensus encoding.
pub mod burnchains;
pub mod chainstate;
pub mod codec;
pub mod types;
pub mod util;
pub mod vm;

pub mod core {
	pub const CHAIN_ID_MAINNET: u32 = 0x0000_0001;
	pub const CHAIN_ID_TESTNET: u32 = 0x8000_0000;
}

pub mod address {
	pub use crate::types::chainstate::{
		C32_ADDRESS_VERSION_MAINNET_MULTISIG, C32_ADDRESS_VERSION_MAINNET_SINGLESIG,
		C32_ADDRESS_VERSION_TESTNET_MULTISIG, C32_ADDRESS_VERSION_TESTNET_SINGLESIG,
	};
}

pub mod clarity {
	pub use crate::vm;
}
