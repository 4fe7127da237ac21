#![allow(missing_debug_implementations, dead_code, unused_variables, unused_imports, unused_mut, deprecated)]
#![allow(bare_trait_objects, clippy::all)]
use crate::model::*;
pub use flatcheck_schemas::*;
use flatdata::*;
include!(concat!(env!("OUT_DIR"), "/schemas.rs"));
