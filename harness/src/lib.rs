#![allow(clippy::type_complexity)]
pub mod abnf;
pub mod ast;
pub mod checks;
pub mod cli;
pub mod engine;
pub mod eval;
pub mod gen;
pub mod iregexp;
pub mod known;
pub mod mutate;
pub mod oracle;
pub mod render;
pub mod sweep;
#[cfg_attr(not(feature = "userfn"), allow(dead_code, unused_imports))]
pub mod userfn;
pub mod vary;
