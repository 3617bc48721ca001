//! Shared instance families and oracles. Everything here is independent of the code under test except for
//! the conversion into its matrix types.
pub mod cli;
pub mod doc;
pub mod fam;
pub mod judge;
pub mod oracle;
pub mod plan;
pub use doc::*;
pub use fam::*;
pub use judge::*;
pub use mcrt;
pub use mcrt::drv::{guard, Ctx, Level, Spec, Tier};
pub use oracle::*;
pub use plan::*;
