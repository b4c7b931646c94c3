//! Specifications, checked by the abstract interpreter in /verif/analyzer.
//! Nothing here is ever executed: the functions named `h_<PROPERTY>_<case>`
//! are analysed from their compiled form, over abstract element values.
#![feature(try_trait_v2)]
#![allow(dead_code)]
pub mod contract;
pub mod model;
pub mod rt;

#[cfg(serde)]
pub mod deser;
pub mod eq;
pub mod interval;
pub mod ints;
pub mod raw;
pub mod steps;
pub mod selection;
pub mod notation;
pub mod surface;
pub mod tree;
