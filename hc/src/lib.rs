//! Shared pieces of the protocol harnesses.
#[path = "../../hm/src/lib.rs"]
pub mod hm;
pub use hm::*;
pub mod coin;
pub mod red;
pub use coin::*;
pub use red::*;
pub mod pv;
pub mod sysgen;
pub mod gsat;
