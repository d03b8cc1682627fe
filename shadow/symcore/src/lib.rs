//! Symbolic shadow engine.
//!
//! The repository's real code runs natively on concrete values ("the path
//! point"); patched copies of ark-ff / ark-ec / sha2 / rand report every field
//! operation, comparison, hash and random draw to this engine, which rebuilds
//! the symbolic expression of each value and the exact path condition.
//! `explore` then asks an SMT solver (z3, theory of finite fields) about every
//! branch and identity on the path.
pub mod engine;
pub mod explore;
pub mod field;
pub mod norm;
pub mod smt;
pub use engine::*;
