#![allow(dead_code)]
pub mod rng;
pub mod mon;
pub mod fam;
pub mod run;
#[cfg(feature = "sched")]
pub mod sched;
pub mod solve;
pub mod model;
pub mod cli;
