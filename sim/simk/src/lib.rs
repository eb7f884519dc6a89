//! Deterministic simulation kernel: real OS threads and processes that run one
//! at a time, handing a baton around as a seeded scheduler decides.
#![allow(clippy::all, static_mut_refs, non_snake_case)]
pub mod alloc;
pub mod cov;
pub mod interpose;
pub mod mpi;
pub mod mpi_stubs;
pub mod sched;
pub mod sh;
pub mod sys;
