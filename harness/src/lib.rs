#![allow(invalid_runtime_symbol_definitions)]
pub mod os;
pub mod rng;
pub mod proc;
pub mod model;
pub mod world;
pub mod case;
pub mod props;
pub mod run;
pub mod selftest;
