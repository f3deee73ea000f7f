//! Executable oracle and counterexample search.  This crate decides nothing by
//! itself: the verifier does.  It replays and searches concrete inputs against
//! the real code when an obligation fails, and cross-checks the extraction and
//! the assumed contracts of dependencies on the real binary.
pub mod oracle;
pub mod rng;
pub mod run;
pub mod core_ops;
pub mod fresh;
pub mod core_gen;
pub mod net_ops;
pub mod net_gen;
