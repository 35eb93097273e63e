//! C07: two containers around what takes the structural path.
#![cfg_attr(feature = "nightly", feature(never_type))]
#![allow(unused_imports, unused_macros, dead_code)]
#[path = "../obj/c07.rs"]
#[macro_use]
mod c07;
#[path = "../obj/uni.rs"]
mod uni;
use c07::*;
use async_io::Async;
use std::collections::*;
use std::ffi::{CString, OsString};
use std::fs::File;
use std::marker::PhantomData;
use std::num::*;
use std::os::fd::OwnedFd;
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant, SystemTime};

fn scenarios() -> Vec<mc::Scenario> {
    mc::files::warm();
    let mut all = Vec::new();
    let v = &mut all;
    check::<String>(v);
    wrapped!(deeper, v, String);
    distinct(all)
}

fn main() {
    crossmist::init();
    mc::run::main(|_, _| scenarios());
}
