//! C07: every built-in type and nesting, every value of its list, every way of carrying it.
#![allow(unused_imports)]
use crate::uni::*;
use crossmist::{Deserializer, Object, Serializer};
use mc::run::Tier;
use mc::{choose, ensure, Scenario};
use async_io::Async;
use std::collections::*;
use std::ffi::{CString, OsString};
use std::fs::File;
use std::marker::PhantomData;
use std::num::*;
use std::os::fd::OwnedFd;
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant, SystemTime};

pub fn io<T>(r: std::io::Result<T>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what}: {e}"))
}

pub fn nth<T: U>(i: usize) -> T {
    T::values().into_iter().nth(i).unwrap()
}

/// Pass an object through a channel.
pub fn pass<T: Object>(o: &T) -> Result<T, String> {
    let (mut tx, mut rx) = io(crossmist::channel::<T>(), "channel")?;
    mc::ends::set_sndbuf(std::os::fd::AsRawFd::as_raw_fd(&tx), 4_000_000);
    io(tx.send(o), "send")?;
    let r = io(rx.recv(), "recv")?.ok_or("object lost")?;
    drop(tx);
    ensure!(matches!(rx.recv(), Ok(None)), "something after the object");
    Ok(r)
}

/// A type with its list of values, behind one interface: as little code as possible is generated per type.
pub trait Case {
    fn all(&self) -> Vec<Box<dyn Value>>;
}
pub trait Value {
    fn put<'a>(&'a self, s: &mut Serializer<'a>);
    /// Deserialize such a value and compare.
    fn take(&self, d: &mut Deserializer) -> std::io::Result<bool>;
    fn put_slice<'a>(&'a self, s: &mut Serializer<'a>);
}
struct Of<T>(PhantomData<T>);
struct One<T>([T; 1]);
impl<T: U> Case for Of<T> {
    fn all(&self) -> Vec<Box<dyn Value>> {
        T::values().into_iter().map(|x| Box::new(One([x])) as Box<dyn Value>).collect()
    }
}
impl<T: U> Value for One<T> {
    fn put<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize(&self.0[0])
    }
    fn take(&self, d: &mut Deserializer) -> std::io::Result<bool> {
        Ok(unsafe { d.deserialize::<T>()? }.same(&self.0[0]))
    }
    fn put_slice<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize_slice(&self.0)
    }
}

fn carry(all: &[Box<dyn Value>], i: usize, j: usize, slices: bool) -> Result<(), String> {
    let (a, b) = (&all[i], &all[j]);
    let tail = String::from("tail");
    let mut s = Serializer::new();
    s.serialize(&7u8);
    if slices {
        a.put_slice(&mut s);
    } else {
        a.put(&mut s);
    }
    s.serialize(&0xdead_beef_u32);
    b.put(&mut s);
    s.serialize(&tail);
    let handles = s.drain_handles().iter().map(|h| h.try_clone_to_owned().unwrap()).collect();
    let mut d = Deserializer::new(s.into_vec(), handles);
    unsafe {
        ensure!(io(d.deserialize::<u8>(), "head")? == 7, "value before altered");
        ensure!(io(a.take(&mut d), "deserialize")?, "value {i} altered");
        ensure!(io(d.deserialize::<u32>(), "mark")? == 0xdead_beef, "value {i} does not consume what it produced");
        ensure!(io(b.take(&mut d), "deserialize")?, "value {j} altered after value {i}");
        ensure!(io(d.deserialize::<String>(), "tail")? == "tail", "value {j} does not consume what it produced");
    }
    Ok(())
}

fn name<T>() -> String {
    std::any::type_name::<T>().replace("alloc::", "").replace("core::", "").replace("std::", "")
}

/// Every value, next to itself, and to each of the two that follow it.
pub fn check<T: U>(v: &mut Vec<Scenario>) {
    add(v, name::<T>(), Box::new(Of::<T>(PhantomData)))
}

fn add(v: &mut Vec<Scenario>, name: String, case: Box<dyn Case>) {
    static KEY: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);
    let key = KEY.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    v.push(Scenario::new(name, 0, move || {
        within(|| {
            VALUES.with_borrow_mut(|c| {
                if c.0 != key {
                    c.1.clear();
                    rewind();
                    *c = (key, case.all());
                }
                let n = c.1.len();
                if n == 0 {
                    return Ok("~no values".into());
                }
                let i = choose(n);
                let j = (i + choose(n.min(3))) % n;
                let slices = choose(2);
                carry(&c.1, i, j, slices == 1)?;
                Ok(format!("{i} {j} {slices}"))
            })
        })
    }));
}

thread_local! {
    /// The values of the current type.
    static VALUES: std::cell::RefCell<(usize, Vec<Box<dyn Value>>)> = const { std::cell::RefCell::new((0, Vec::new())) };
}

/// Through a channel, alone and between neighbours that are on the structural path.
pub fn send<T: U>(v: &mut Vec<Scenario>) {
    v.push(Scenario::new(format!("channel/{}", name::<T>()), 0, || {
        within(|| {
            rewind();
            let n = T::values().len();
            let i = choose(n);
            let o: T = nth(i);
            ensure!(pass(&o)?.same(&o), "value {i} altered by a channel");
            let o = (3u8, o, String::from("after"), vec![Some(nth::<T>((i + 1) % n)), None]);
            let x = pass(&o)?;
            ensure!(x.0 == 3 && x.2 == "after", "neighbours of value {i} altered");
            ensure!(x.1.same(&o.1), "value {i} altered in a tuple");
            ensure!(x.3.same(&o.3), "value {i} altered in a list");
            Ok(format!("{i}"))
        })
    }));
}

/// In the context of a tokio runtime, as some types need one.
pub fn within<R>(f: impl FnOnce() -> R) -> R {
    thread_local! {
        static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    }
    RT.with(|rt| {
        let _g = rt.enter();
        f()
    })
}

macro_rules! wrapped {
    ($m:ident, $v:expr, $t:ty) => {
        $m!($v, Option<$t>);
        $m!($v, Result<$t, u8>);
        $m!($v, Result<String, $t>);
        $m!($v, Box<$t>);
        $m!($v, Rc<$t>);
        $m!($v, Arc<$t>);
        $m!($v, Vec<$t>);
        $m!($v, LinkedList<$t>);
        $m!($v, VecDeque<$t>);
        $m!($v, Box<[$t]>);
        $m!($v, [$t; 0]);
        $m!($v, [$t; 1]);
        $m!($v, [$t; 3]);
        $m!($v, ($t,));
        $m!($v, ($t, u8));
        $m!($v, (u8, $t, u64));
        $m!($v, (String, $t));
        $m!($v, BTreeMap<u8, $t>);
        $m!($v, HashMap<String, $t>);
    };
}
macro_rules! leaf {
    ($v:expr, $t:ty) => {
        check::<$t>($v);
    };
}
macro_rules! deeper {
    ($v:expr, $t:ty) => {
        check::<$t>($v);
        wrapped!(leaf, $v, $t);
    };
}
macro_rules! ordered {
    ($v:expr, $($t:ty),* $(,)?) => {$(
        check::<BTreeSet<$t>>($v);
        check::<HashSet<$t>>($v);
        check::<HashSet<$t, std::hash::BuildHasherDefault<std::hash::DefaultHasher>>>($v);
        check::<BinaryHeap<$t>>($v);
        check::<BTreeMap<$t, String>>($v);
        check::<BTreeMap<$t, u16>>($v);
        check::<HashMap<$t, Vec<u8>>>($v);
        check::<HashMap<$t, u8, std::hash::BuildHasherDefault<std::hash::DefaultHasher>>>($v);
        check::<BTreeMap<$t, BTreeSet<$t>>>($v);
        check::<HashSet<BTreeSet<$t>, std::hash::BuildHasherDefault<std::hash::DefaultHasher>>>($v);
    )*};
}
macro_rules! bases {
    ($m:ident, $v:expr, [$($t:ty),* $(,)?]) => { $($m!($v, $t);)* };
}







pub fn distinct(mut all: Vec<Scenario>) -> Vec<Scenario> {
    let mut seen = HashSet::new();
    all.retain(|s| seen.insert(s.name.clone()));
    all
}
