//! Objects: every nesting two deep, failing at every point.
use crate::track::*;
use crossmist::{Delayed, Deserializer, Object, Serializer};
use mc::run::Tier;
use mc::{ensure, Scenario};
use std::collections::*;
use std::rc::Rc;
use std::sync::Arc;

pub trait Gen: Object + Sized + 'static {
    fn gen() -> Self;
    /// Look at everything.
    fn touch(&self);
}
impl Gen for Tok {
    fn gen() -> Self {
        Tok::new()
    }
    fn touch(&self) {
        self.check()
    }
}
macro_rules! plain {
    ($($t:ty: $e:expr),*) => { $(impl Gen for $t {
        fn gen() -> Self { $e }
        fn touch(&self) {}
    })* };
}
plain!(u64: 7, (): (), String: "a string".into(), (u8, u32): (1, 2), [u16; 3]: [4, 5, 6], std::path::PathBuf: "/a/path".into(), std::ffi::CString: c"text".into());

impl<T: Gen> Gen for Option<T> {
    fn gen() -> Self {
        [None, Some(())][pick(2)].map(|_| T::gen())
    }
    fn touch(&self) {
        self.iter().for_each(T::touch)
    }
}
impl<T: Gen> Gen for Result<T, Option<T>> {
    fn gen() -> Self {
        if pick(2) == 0 {
            Ok(T::gen())
        } else {
            Err(Some(T::gen()))
        }
    }
    fn touch(&self) {
        match self {
            Ok(x) => x.touch(),
            Err(x) => x.touch(),
        }
    }
}
impl<T: Gen> Gen for (T, u8, T) {
    fn gen() -> Self {
        (T::gen(), 3, T::gen())
    }
    fn touch(&self) {
        self.0.touch();
        self.2.touch();
    }
}
impl<T: Gen> Gen for [T; 2] {
    fn gen() -> Self {
        [T::gen(), T::gen()]
    }
    fn touch(&self) {
        self.iter().for_each(T::touch)
    }
}
impl<T: Gen> Gen for [T; 0] {
    fn gen() -> Self {
        []
    }
    fn touch(&self) {}
}
macro_rules! sequence {
    ($($t:ident)*) => { $(impl<T: Gen> Gen for $t<T> {
        fn gen() -> Self { (0..pick(3)).map(|_| T::gen()).collect() }
        fn touch(&self) { self.iter().for_each(T::touch) }
    })* };
}
sequence!(Vec VecDeque LinkedList);
macro_rules! ordered {
    ($($t:ty),*) => { $(impl Gen for $t {
        fn gen() -> Self { (0..pick(4)).map(|_| Tok::new()).collect() }
        fn touch(&self) { self.iter().for_each(Tok::check) }
    })* };
}
ordered!(BTreeSet<Tok>, HashSet<Tok>, BinaryHeap<Tok>);
macro_rules! map {
    ($($t:ident)*) => { $(
        impl<T: Gen> Gen for $t<u8, T> {
            fn gen() -> Self { (0..pick(3)).map(|i| (i as u8, T::gen())).collect() }
            fn touch(&self) { self.values().for_each(T::touch) }
        }
        impl<T: Gen> Gen for $t<Tok, T> {
            fn gen() -> Self { (0..pick(3)).map(|_| (Tok::new(), T::gen())).collect() }
            fn touch(&self) { self.keys().for_each(Tok::check); self.values().for_each(T::touch) }
        }
    )* };
}
map!(BTreeMap HashMap);
macro_rules! pointer {
    ($($t:ident)*) => { $(impl<T: Gen> Gen for $t<T> {
        fn gen() -> Self { $t::new(T::gen()) }
        fn touch(&self) { T::touch(self) }
    })* };
}
pointer!(Box Rc Arc);
impl<T: Gen> Gen for Box<[T]> {
    fn gen() -> Self {
        (0..pick(3)).map(|_| T::gen()).collect()
    }
    fn touch(&self) {
        self.iter().for_each(T::touch)
    }
}
impl<T: Gen> Gen for Delayed<T> {
    fn gen() -> Self {
        Delayed::new(T::gen())
    }
    fn touch(&self) {}
}

/// Pointers to the same objects, met in different places.
#[derive(Object)]
pub struct Shared<T: Object + 'static> {
    a: Rc<T>,
    b: Vec<Rc<T>>,
    c: Arc<T>,
    d: Option<(Arc<T>, Rc<T>)>,
}
impl<T: Gen> Gen for Shared<T> {
    fn gen() -> Self {
        let (x, y, z) = (Rc::new(T::gen()), Rc::new(T::gen()), Arc::new(T::gen()));
        Shared { a: x.clone(), b: vec![y.clone(), x], c: z.clone(), d: Some((z, y)) }
    }
    fn touch(&self) {
        self.a.touch();
        self.b[0].touch();
        self.c.touch();
    }
}

#[derive(Object)]
pub struct Fields<T: Object> {
    a: T,
    b: u16,
    c: Box<T>,
    d: T,
}
impl<T: Gen> Gen for Fields<T> {
    fn gen() -> Self {
        Fields { a: T::gen(), b: 1, c: Box::new(T::gen()), d: T::gen() }
    }
    fn touch(&self) {
        let _ = self.b;
        [&self.a, &*self.c, &self.d].into_iter().for_each(T::touch)
    }
}
#[derive(Object)]
pub enum Variants<T: Object> {
    Unit,
    Tuple(T, T),
    Named { x: T, y: Option<T> },
}
impl<T: Gen> Gen for Variants<T> {
    fn gen() -> Self {
        match pick(3) {
            0 => Variants::Unit,
            1 => Variants::Tuple(T::gen(), T::gen()),
            _ => Variants::Named { x: T::gen(), y: Some(T::gen()) },
        }
    }
    fn touch(&self) {
        match self {
            Variants::Unit => {}
            Variants::Tuple(x, y) => {
                x.touch();
                y.touch();
            }
            Variants::Named { x, y } => {
                x.touch();
                y.touch();
            }
        }
    }
}

pub trait Dyn: Object {
    fn touch_dyn(&self);
}
#[derive(Object)]
struct Imp<T: Object>(T, u32);
#[derive(Object)]
struct Nothing;
#[derive(Object)]
#[repr(align(64))]
struct Aligned<T: Object>(T);
#[derive(Object)]
#[repr(align(64))]
struct AlignedPlain(u8);
impl<T: Gen> Dyn for Imp<T> {
    fn touch_dyn(&self) {
        self.0.touch()
    }
}
impl Dyn for Nothing {
    fn touch_dyn(&self) {}
}
impl<T: Gen> Dyn for Aligned<T> {
    fn touch_dyn(&self) {
        self.0.touch();
        assert!(self as *const Self as usize % 64 == 0, "misaligned");
    }
}
impl Dyn for AlignedPlain {
    fn touch_dyn(&self) {
        assert!(self as *const Self as usize % 64 == 0 && self.0 == 9, "misaligned");
    }
}
#[derive(Object)]
pub struct Any<T: Object + 'static>(Box<dyn Dyn>, std::marker::PhantomData<T>);
impl<T: Gen> Gen for Any<T> {
    fn gen() -> Self {
        let b: Box<dyn Dyn> = match pick(4) {
            0 => Box::new(Imp(T::gen(), 5)),
            1 => Box::new(Nothing),
            2 => Box::new(Aligned(T::gen())),
            _ => Box::new(AlignedPlain(9)),
        };
        Any(b, std::marker::PhantomData)
    }
    fn touch(&self) {
        self.0.touch_dyn()
    }
}

fn scenario<T: Gen>(v: &mut Vec<Scenario>, name: String) {
    v.push(Scenario::new(name, 0, move || {
        owned(|| {
            let o = T::gen();
            let (n, by_panic) = match pick(19) {
                n if n <= 9 => (n, false),
                n => (n - 9, true),
            };
            let way = pick(4);
            let first = pick(2);
            let mut delayed = None;
            let mut plain = None;
            let mut end = None;
            let before = alive();
            let mut seen = false;
            let r: std::io::Result<T> = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match way {
                0 => {
                    let mut s = Serializer::new();
                    s.serialize(&o);
                    assert!(s.drain_handles().is_empty());
                    let data = s.into_vec();
                    plain = Some(o);
                    fail_at(n, by_panic);
                    unsafe { Deserializer::new(data, vec![]).deserialize::<T>() }
                }
                1 => {
                    let (mut tx, mut rx) = crossmist::channel::<T>()?;
                    tx.send(&o)?;
                    plain = Some(o);
                    fail_at(n, by_panic);
                    let r = rx.recv();
                    end = Some(rx);
                    Ok(r?.unwrap())
                }
                way => {
                    let (mut tx, mut rx) = crossmist::channel::<Delayed<T>>()?;
                    let o = delayed.insert(Delayed::new(o));
                    tx.send(o)?;
                    let x = rx.recv()?.unwrap();
                    fail_at(n, by_panic);
                    if way == 3 {
                        drop(x);
                        seen = true;
                        return Err(std::io::Error::from_raw_os_error(libc::EIO));
                    }
                    x.deserialize()
                }
            }))
            .unwrap_or_else(|_| Err(std::io::Error::from_raw_os_error(libc::EIO)));
            let panicked = PANICKED.get();
            if way == 3 {
                if n > 0 {
                    return Ok((String::new(), false));
                }
                assert!(seen);
            } else if n > 0 && !failed() {
                // There are fewer
                return Ok(("~".into(), false));
            }
            ensure!(alive() >= before, "what was sent is gone");
            match r {
                Ok(x) => {
                    ensure!(n == 0, "an error was lost");
                    if first == 0 {
                        drop((delayed, plain));
                        x.touch();
                        drop(x);
                    } else {
                        x.touch();
                        drop(x);
                        plain.iter().for_each(T::touch);
                    }
                }
                Err(_) => {
                    ensure!(n > 0 || way == 3, "failed");
                    ensure!(panicked || alive() == before, "parts of an object that was not received stay alive, or parts of the original are gone");
                    plain.iter().for_each(T::touch);
                }
            }
            Ok((String::from(if n == 0 { "whole" } else { "failed" }), panicked))
        })
    }));
}

macro_rules! nest {
    ($v:ident, $n:expr, $($i:ty),*) => { $(all!($v, $n, $i);)* };
}
macro_rules! all {
    ($v:ident, $n:expr, $i:ty) => {
        all!(@ $v, $n, $i: Option<$i>, Result<$i, Option<$i>>, ($i, u8, $i), [$i; 2], Vec<$i>, VecDeque<$i>, LinkedList<$i>, BTreeMap<u8, $i>, HashMap<Tok, $i>,
            Box<$i>, Rc<$i>, Arc<$i>, Box<[$i]>, Delayed<$i>, Shared<$i>, Fields<$i>, Variants<$i>, Any<$i>);
    };
    (@ $v:ident, $n:expr, $i:ty: $($o:ty),*) => { $(scenario::<$o>(&mut $v, format!("{}/{}", $n, stringify!($o)));)* };
}

pub fn scenarios(_tier: Tier) -> Vec<Scenario> {
    let mut v = Vec::new();
    macro_rules! one {
        ($($t:ty),*) => { $(scenario::<$t>(&mut v, format!("one/{}", stringify!($t)));)* };
    }
    one!(Tok, u64, (), String, (u8, u32), [u16; 3], std::path::PathBuf, std::ffi::CString, [Tok; 0], BTreeSet<Tok>, HashSet<Tok>, BinaryHeap<Tok>,
        BTreeMap<Tok, Tok>, HashMap<u8, Tok>);
    nest!(v, "one", Tok, u64, (), String, (u8, u32));
    nest!(v, "two", Option<Tok>, Result<Tok, Option<Tok>>, (Tok, u8, Tok), [Tok; 2], Vec<Tok>, VecDeque<Tok>, LinkedList<Tok>, BTreeMap<u8, Tok>, HashMap<Tok, Tok>,
        Box<Tok>, Rc<Tok>, Arc<Tok>, Box<[Tok]>, Delayed<Tok>, Shared<Tok>, Fields<Tok>, Variants<Tok>, Any<Tok>, BTreeSet<Tok>, BinaryHeap<Tok>);
    nest!(v, "two", Vec<u64>, [u16; 3], Box<u64>, Rc<String>);
    v
}
