//! C07: other base types alone and in every container, handles, and what passes through channels.
#![cfg_attr(feature = "nightly", feature(never_type))]
#![allow(unused_imports, unused_macros, dead_code)]
#[path = "../obj/c07.rs"]
#[macro_use]
mod c07;
#[path = "../obj/uni.rs"]
mod uni;
use c07::*;
use async_io::Async;
use std::collections::*;
use std::ffi::{CString, OsString};
use std::fs::File;
use std::marker::PhantomData;
use std::num::*;
use std::os::fd::OwnedFd;
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant, SystemTime};

fn scenarios() -> Vec<mc::Scenario> {
    mc::files::warm();
    let mut all = Vec::new();
    let v = &mut all;
    bases!(deeper, v, [
        bool, char, f32, f64, CString, OsString, PathBuf, Duration, SystemTime, Instant, PhantomData<String>,
        PhantomData<Rc<File>>, std::convert::Infallible,
    ]);
    #[cfg(feature = "nightly")]
    {
        check::<!>(v);
        check::<Result<u8, !>>(v);
        check::<Vec<!>>(v);
    }
    bases!(leaf, v, [
        tokio::fs::File, async_fs::File, UnixStream, tokio::net::UnixStream, Async<UnixStream>, OwnedFd,
        Vec<tokio::fs::File>, Option<async_fs::File>, (u8, tokio::net::UnixStream), [OwnedFd; 3], Box<Async<UnixStream>>,
        Rc<OwnedFd>, Result<UnixStream, tokio::fs::File>, (File, u8, OwnedFd, UnixStream, String, tokio::fs::File),
    ]);
    macro_rules! sent {
        ($v:expr, $t:ty) => {
            send::<$t>($v);
        };
    }
    bases!(sent, v, [
        u8, i128, char, f64, (), String, File, OsString, CString, PathBuf, Option<u8>, Vec<u64>, Vec<String>, Box<String>, [u8; 3],
        [File; 2], (u8, u64), BTreeMap<u8, String>, HashMap<String, Vec<u8>>, Rc<String>, Result<u8, String>, tokio::fs::File, OwnedFd,
        Vec<()>, [u8; 0], [u64; 5000], LinkedList<File>, VecDeque<u16>, Box<[u32]>, BinaryHeap<u8>, BTreeSet<String>,
    ]);
    distinct(all)
}

fn main() {
    crossmist::init();
    mc::run::main(|_, _| scenarios());
}
