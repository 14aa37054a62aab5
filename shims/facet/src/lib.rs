//! Stand-in: reflection is not used by the code under check.
pub use facet_macros::Facet;
