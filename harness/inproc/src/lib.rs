//! In-process monitors of the derive.
pub mod gen;
pub mod monitor;
pub mod text;
