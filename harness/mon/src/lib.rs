//! Workload generators shared by the monitor binaries.
pub mod gen;
