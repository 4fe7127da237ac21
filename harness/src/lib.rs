//! Shared parts of the checks: schemas with their model, runner, utilities.
#![allow(bare_trait_objects)]
#[macro_use]
extern crate flatdata;

pub mod archprog;
pub mod archworld;
pub mod crowd;
pub mod giant;
pub mod iterprog;
pub mod model;
pub mod runner;
pub mod stprog;
pub mod schemas;
pub mod util;
