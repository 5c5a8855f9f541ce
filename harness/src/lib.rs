//! Shared by the binaries in src/bin, one per group of properties.
pub mod case; pub mod driver; pub mod exact; pub mod gen; pub mod geom; pub mod num; pub mod rng; pub mod run; pub mod runner;
