#![allow(clippy::all, static_mut_refs, dead_code)]
#[macro_use]
pub mod vf;
pub mod run;
pub mod tpl;
pub mod ast;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c32;
pub mod c33;
pub mod c34;
pub mod c35;
pub mod c36;
#[cfg(feature = "store")]
pub mod c37;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c26;
pub mod c30;
pub mod c31;
include!(concat!(env!("OUT_DIR"), "/entries.rs"));
