#![feature(thread_local, asm)]
#![allow(dead_code, unused_imports)]
#[macro_use] pub mod ctx;
pub mod sys;
pub mod alloc;
pub mod mem;
#[macro_use] pub mod elem;
pub mod sched;
pub mod closures;
pub mod simarray;
pub mod model;
pub mod pull;
pub mod make;
pub mod subject;
pub mod history;
pub mod known;
pub mod ops;
pub mod io;
pub mod trace;
pub mod conc;
pub mod direct;
pub mod scen;
pub mod runner;

