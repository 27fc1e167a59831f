//! Model of curve25519-dalek 2.1.3 for model checking.
pub mod constants;
pub mod field;
pub mod model;
pub mod ristretto;
pub mod scalar;
pub mod traits;
