//! Library properties C01-C20, and reference implementations the other harnesses reuse.
pub mod gens;
pub mod keys;
pub mod num;
pub mod ops;
pub mod reveal;
pub mod text;
pub mod wallets;
pub mod wire;
