#![feature(formatting_options)]
#![allow(unused, dead_code, bare_trait_objects, deprecated)]
extern crate claxon;
pub mod vx;
pub mod src;
pub mod c06;
pub mod c05;
pub mod sub;
pub mod frame;
pub mod c04;
pub mod c15;
pub mod meta;
pub mod c11;
pub mod c12;
pub mod c14;
pub mod c13;
pub mod c07;
pub mod c01;
pub mod c24;
pub mod c08;
pub mod c21;
pub mod c27;
pub mod c28;
