//! C07: sets, heaps and maps; tuples of every length; arrays.
#![cfg_attr(feature = "nightly", feature(never_type))]
#![allow(unused_imports, unused_macros, dead_code)]
#[path = "../obj/c07.rs"]
#[macro_use]
mod c07;
#[path = "../obj/uni.rs"]
mod uni;
use c07::*;
use async_io::Async;
use std::collections::*;
use std::ffi::{CString, OsString};
use std::fs::File;
use std::marker::PhantomData;
use std::num::*;
use std::os::fd::OwnedFd;
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant, SystemTime};

/// Lengths that do not fit 8, 16 or 24 bits.
fn wide(v: &mut Vec<mc::Scenario>) {
    fn is<T: crossmist::Object + PartialEq>(o: T) -> Result<(), String> {
        let o = (o, 7u8);
        let mut s = crossmist::Serializer::new();
        s.serialize(&o);
        let tail = String::from("tail");
        s.serialize(&tail);
        let mut d = crossmist::Deserializer::new(s.into_vec(), Vec::new());
        mc::ensure!(io(unsafe { d.deserialize::<(T, u8)>() }, "deserialize")? == o, "a value was altered");
        mc::ensure!(io(unsafe { d.deserialize::<String>() }, "deserialize")? == "tail", "what follows was altered");
        Ok(())
    }
    macro_rules! lengths {
        ($($name:literal $n:ident $make:expr;)*) => {$(
            v.push(mc::Scenario::new(format!("wide/{}", $name), 0, || {
                let counts = [127, 128, 255, 256, 257, 32_767, 32_768, 65_535, 65_536, 65_537, 70_001];
                let $n: usize = counts[mc::choose(counts.len())];
                is($make)?;
                Ok(format!("{}", $n))
            }));
        )*};
    }
    lengths! {
        "Vec<u8>" n mc::util::pattern(1, n);
        "Vec<u8>*256" n mc::util::pattern(1, n * 256 + 1);
        "Vec<bool>" n (0..n).map(|i| i % 3 == 0).collect::<Vec<_>>();
        "Vec<u64>" n (0..n as u64).collect::<Vec<_>>();
        "Vec<()>" n vec![(); n];
        "Vec<Option<u8>>" n (0..n).map(|i| (i % 3 > 0).then_some(i as u8)).collect::<Vec<_>>();
        "Vec<String>" n (0..n).map(|i| i.to_string()).collect::<Vec<_>>();
        "Box<[u16]>" n (0..n).map(|i| i as u16).collect::<Box<[_]>>();
        "Box<[String]>" n (0..n).map(|i| i.to_string()).collect::<Box<[_]>>();
        "String" n (0..n).map(|i| ['x', '\u{e9}', '\u{1F600}', '\0'][i * 7 % 4]).collect::<String>();
        "CString" n CString::new(vec![b'z'; n]).unwrap();
        "OsString" n <OsString as std::os::unix::ffi::OsStringExt>::from_vec(mc::util::pattern(2, n));
        "PathBuf" n PathBuf::from(<OsString as std::os::unix::ffi::OsStringExt>::from_vec(mc::util::pattern(2, n)));
        "VecDeque<u32>" n (0..n as u32).collect::<VecDeque<_>>();
        "LinkedList<Box<u32>>" n (0..n as u32).map(Box::new).collect::<LinkedList<_>>();
        "BTreeSet<u32>" n (0..n as u32).collect::<BTreeSet<_>>();
        "HashSet<String>" n (0..n).map(|i| i.to_string()).collect::<HashSet<_>>();
        "BTreeMap<String, u32>" n (0..n as u32).map(|i| (i.to_string(), i)).collect::<BTreeMap<_, _>>();
        "HashMap<u32, String>" n (0..n as u32).map(|i| (i, i.to_string())).collect::<HashMap<_, _>>();
    }
    v.push(mc::Scenario::new("wide/BinaryHeap<u32>", 0, || {
        let counts = [255, 256, 257, 65_535, 65_536, 65_537];
        let n = counts[mc::choose(counts.len())];
        let o: BinaryHeap<u32> = (0..n).collect();
        let mut s = crossmist::Serializer::new();
        s.serialize(&o);
        let mut d = crossmist::Deserializer::new(s.into_vec(), Vec::new());
        let r: BinaryHeap<u32> = io(unsafe { d.deserialize() }, "deserialize")?;
        mc::ensure!(r.into_sorted_vec() == o.into_sorted_vec(), "a value was altered");
        Ok(format!("{n}"))
    }));
}

fn scenarios() -> Vec<mc::Scenario> {
    mc::files::warm();
    let mut all = Vec::new();
    let v = &mut all;
    ordered!(v, u8, i64, bool, char, String, (), (u8, String), (u8, u32), Option<u8>, Option<String>, Vec<u8>, [u8; 2], Box<u8>, Rc<String>, OsString, PathBuf, Duration, Result<u8, String>);
    // Tuples of every length, plain and structural
    macro_rules! tuples {
        ($($t:ident)*) => { tuples!(@ [] $($t)*); };
        (@ [$($d:ident)*]) => { check::<($($d,)*)>(v); };
        (@ [$($d:ident)*] $h:ident $($t:ident)*) => {
            check::<($($d,)* $h,)>(v);
            check::<($($d,)* File,)>(v);
            tuples!(@ [$($d)* $h] $($t)*);
        };
    }
    tuples!(u8 u64 bool u16 char i128 f32 i8 u32 NonZeroU8 i64 u8 f64 isize u128 i16 usize bool u8 i32);
    tuples!(String u8 CString u64 PathBuf bool String u16 OsString char String i128 String f32 String i8 String u32 String u8);
    check::<[u8; 32]>(v);
    check::<[u8; 33]>(v);
    check::<[String; 33]>(v);
    check::<[[u16; 3]; 4]>(v);
    check::<[[String; 2]; 3]>(v);
    check::<[u64; 5000]>(v);
    check::<Vec<[u8; 0]>>(v);
    check::<[[u8; 0]; 5]>(v);
    wide(v);
    distinct(all)
}

fn main() {
    crossmist::init();
    mc::run::main(|_, _| scenarios());
}
