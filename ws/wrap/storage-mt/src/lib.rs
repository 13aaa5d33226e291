//! /repo/storage compiled with its synchronization under the control of a scheduler.
//! build.rs inlines every module of the crate and lets `std::sync` and `std::thread` resolve to shuttle's.
#![allow(clippy::all, unused)]
include!(concat!(env!("OUT_DIR"), "/all.rs"));
