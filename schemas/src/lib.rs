//! The schemas the checks run on, in a crate that depends on flatdata alone: what the macros expand to compiles as it does
//! for their users.
#![allow(missing_debug_implementations, dead_code, unused_variables, unused_imports, unused_mut, deprecated)]
#![allow(bare_trait_objects, clippy::all)]
#[macro_use]
extern crate flatdata;
use flatdata::*;
include!(concat!(env!("OUT_DIR"), "/defs.rs"));

/// Enumerations that do not declare every value their field can hold.
#[derive(Debug, Clone, Copy, PartialEq)]
#[repr(u8)]
pub enum Partial {
    Zero = 0,
    One = 1,
    Two = 2,
}
impl flatdata::helper::Int for Partial {
    const IS_SIGNED: bool = false;
}
#[derive(Debug, Clone, Copy, PartialEq)]
#[repr(i32)]
pub enum Sparse {
    Minus = -3,
    Zero = 0,
    Four = 4,
}
impl flatdata::helper::Int for Sparse {
    const IS_SIGNED: bool = true;
}
define_struct!(PEnum, RefPEnum, RefMutPEnum, "PEnum", 2, (a, set_a, Partial: u8, 1, 2), (b, set_b, u8: u8, 3, 3), (c, set_c, Sparse: i32, 6, 4));

