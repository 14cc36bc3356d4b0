//! Checks which generate whole programs.
pub mod decl;
pub mod report;
pub mod rustc;
