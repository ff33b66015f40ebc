#![allow(dead_code, unused_imports)]
pub mod sym;
pub mod gen;
pub mod fp;
pub mod lay;
pub mod sch;
pub mod lib_;
pub mod klc;
#[cfg(any(feature = "c12", feature = "c13", feature = "c25", feature = "c26"))]
pub mod fs;
include!(concat!(env!("OUT_DIR"), "/table.rs"));
