//! Nothing: this crate is only built for its dependencies.
