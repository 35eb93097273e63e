//! The universe of values: for every type a short list of values covering its extremes, and equality.
use async_io::Async;
use crossmist::Object;
use mc::files::dup;
use std::cell::Cell;
use std::collections::*;
use std::ffi::{CString, OsString};
use std::fs::File;
use std::hash::{BuildHasher, Hash};
use std::marker::PhantomData;
use std::num::*;
use std::os::fd::{AsRawFd, OwnedFd};
use std::os::unix::ffi::OsStringExt;
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant, SystemTime};

pub trait U: Object + Sized + 'static {
    fn values() -> Vec<Self>;
    fn same(&self, o: &Self) -> bool;
}

/// No type contributes more values than this to the types built from it.
const CAP: usize = 9;

pub fn cap<T>(mut v: Vec<T>) -> Vec<T> {
    v.truncate(CAP);
    v
}

thread_local! {
    static NEXT: Cell<usize> = const { Cell::new(0) };
}

/// Start handing out files from the beginning of the pool.
pub fn rewind() {
    NEXT.set(0);
}

fn file() -> File {
    let n = NEXT.get();
    NEXT.set(n + 1);
    dup(n * 3 % mc::files::POOL)
}

pub fn shared(a: i32, b: i32) -> bool {
    unsafe {
        if mc::util::ino(a) != mc::util::ino(b) || mc::util::ino(a) == (0, 0) || a == b {
            return false;
        }
        let off = libc::lseek(a, 0, libc::SEEK_CUR);
        if off < 0 {
            return true;
        }
        let r = libc::lseek(b, off + 5, libc::SEEK_SET) == off + 5 && libc::lseek(a, 0, libc::SEEK_CUR) == off + 5;
        libc::lseek(a, off, libc::SEEK_SET);
        r && libc::fcntl(a, libc::F_GETFL) == libc::fcntl(b, libc::F_GETFL) && mc::util::fd_flags(b) == libc::FD_CLOEXEC
    }
}

macro_rules! plain {
    ($($t:ty: [$($v:expr),* $(,)?];)*) => {$(
        impl U for $t {
            fn values() -> Vec<Self> { vec![$($v),*] }
            fn same(&self, o: &Self) -> bool { self == o }
        }
    )*};
}
macro_rules! ints {
    ($($t:ident $n:ident),*) => {$(
        impl U for $t {
            fn values() -> Vec<Self> { vec![0, 1, $t::MAX, $t::MIN, $t::MAX / 3, ($t::MAX / 2) ^ 0x55] }
            fn same(&self, o: &Self) -> bool { self == o }
        }
        impl U for $n {
            fn values() -> Vec<Self> { [1, $t::MAX, $t::MIN, $t::MAX / 3].iter().filter_map(|x| $n::new(*x)).collect() }
            fn same(&self, o: &Self) -> bool { self == o }
        }
    )*};
}
ints!(
    u8 NonZeroU8, u16 NonZeroU16, u32 NonZeroU32, u64 NonZeroU64, u128 NonZeroU128, usize NonZeroUsize,
    i8 NonZeroI8, i16 NonZeroI16, i32 NonZeroI32, i64 NonZeroI64, i128 NonZeroI128, isize NonZeroIsize
);

fn long(n: usize) -> String {
    (0..n).map(|i| ['x', 'é', '\u{1F600}', '\0'][i * 7 % 4]).collect()
}

plain! {
    (): [()];
    bool: [false, true];
    char: ['\0', 'a', '\u{D7FF}', '\u{E000}', '\u{10FFFF}'];
    String: [String::new(), "a".into(), "\0\u{10FFFF}é".into(), long(40), long(9000)];
    CString: [CString::new("").unwrap(), CString::new("a").unwrap(), CString::new(vec![0xff, 1, 0x80]).unwrap(), CString::new(vec![b'z'; 20000]).unwrap()];
    OsString: [OsString::new(), OsString::from("é"), OsString::from_vec(vec![0xff, 0, 0xc3]), OsString::from_vec(vec![0xfe; 17000])];
    PathBuf: [PathBuf::new(), PathBuf::from("/"), PathBuf::from("../a//b/"), PathBuf::from(OsString::from_vec(vec![b'/', 0xff, 0xfe]))];
    Duration: [Duration::ZERO, Duration::MAX, Duration::new(1, 999_999_999)];
    SystemTime: [SystemTime::UNIX_EPOCH, SystemTime::UNIX_EPOCH - Duration::new(5, 1), SystemTime::UNIX_EPOCH + Duration::new(1 << 40, 999_999_999)];
    Instant: [FIXED.with(|f| *f), FIXED.with(|f| *f) + Duration::new(1 << 30, 7)];
    PhantomData<String>: [PhantomData];
    PhantomData<std::rc::Rc<File>>: [PhantomData];
}
thread_local! {
    static FIXED: Instant = Instant::now();
}

impl U for f32 {
    fn values() -> Vec<Self> {
        vec![0.0, -0.0, f32::INFINITY, f32::from_bits(0x7fc0_1234), f32::from_bits(1), f32::MAX, f32::from_bits(0xff80_0001)]
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl U for f64 {
    fn values() -> Vec<Self> {
        vec![0.0, -0.0, f64::NEG_INFINITY, f64::from_bits(0x7ff8_1234_5678_9abc), f64::from_bits(1), f64::MIN]
    }
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl U for std::convert::Infallible {
    fn values() -> Vec<Self> {
        vec![]
    }
    fn same(&self, _: &Self) -> bool {
        match *self {}
    }
}
#[cfg(feature = "nightly")]
impl U for ! {
    fn values() -> Vec<Self> {
        vec![]
    }
    fn same(&self, _: &Self) -> bool {
        *self
    }
}

macro_rules! handles {
    ($($t:ty: $make:expr;)*) => {$(
        impl U for $t {
            fn values() -> Vec<Self> { vec![$make, $make] }
            fn same(&self, o: &Self) -> bool { shared(self.as_raw_fd(), o.as_raw_fd()) }
        }
    )*};
}
fn stream() -> UnixStream {
    UnixStream::pair().unwrap().0
}
fn nonblocking() -> UnixStream {
    let s = stream();
    s.set_nonblocking(true).unwrap();
    s
}
handles! {
    File: file();
    OwnedFd: OwnedFd::from(file());
    tokio::fs::File: tokio::fs::File::from_std(file());
    UnixStream: stream();
    tokio::net::UnixStream: tokio::net::UnixStream::from_std(nonblocking()).unwrap();
    Async<UnixStream>: Async::new(stream()).unwrap();
}
impl U for async_fs::File {
    fn values() -> Vec<Self> {
        vec![file().into()]
    }
    fn same(&self, o: &Self) -> bool {
        use std::os::fd::AsFd;
        shared(self.as_fd().as_raw_fd(), o.as_fd().as_raw_fd())
    }
}

impl<T: U> U for Option<T> {
    fn values() -> Vec<Self> {
        let mut v = vec![None];
        v.extend(cap(T::values()).into_iter().map(Some));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<T: U, E: U> U for Result<T, E> {
    fn values() -> Vec<Self> {
        let mut v: Vec<Self> = cap(T::values()).into_iter().map(Ok).collect();
        v.extend(cap(E::values()).into_iter().map(Err));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a.same(b),
            _ => false,
        }
    }
}
macro_rules! pointers {
    ($($t:ident),*) => {$(
        impl<T: U> U for $t<T> {
            fn values() -> Vec<Self> { T::values().into_iter().map($t::new).collect() }
            fn same(&self, o: &Self) -> bool { (**self).same(&**o) }
        }
    )*};
}
pointers!(Box, Rc, Arc);

/// Empty, every single value, all values, all values backwards twice.
fn lists<T: U>() -> Vec<Vec<T>> {
    let mut v = vec![vec![]];
    v.extend(cap(T::values()).into_iter().map(|x| vec![x]));
    v.push(T::values());
    let mut twice: Vec<T> = T::values().into_iter().chain(T::values()).collect();
    twice.reverse();
    v.push(twice);
    v
}
fn same_iter<'a, T: U>(a: impl ExactSizeIterator<Item = &'a T>, b: impl ExactSizeIterator<Item = &'a T>) -> bool {
    a.len() == b.len() && a.zip(b).all(|(x, y)| x.same(y))
}
macro_rules! sequences {
    ($($t:ty),*) => {$(
        impl<T: U> U for $t {
            fn values() -> Vec<Self> { lists::<T>().into_iter().map(|v| v.into_iter().collect()).collect() }
            fn same(&self, o: &Self) -> bool { same_iter(self.iter(), o.iter()) }
        }
    )*};
}
sequences!(Vec<T>, LinkedList<T>, Box<[T]>);
impl<T: U> U for VecDeque<T> {
    fn values() -> Vec<Self> {
        // The second half wraps around the buffer
        let mut v: Vec<Self> = lists::<T>().into_iter().map(|v| v.into_iter().collect()).collect();
        let mut d = VecDeque::with_capacity(4);
        for x in T::values().into_iter().take(2) {
            d.push_back(x);
        }
        for x in T::values().into_iter().take(2) {
            d.push_front(x);
        }
        v.push(d);
        v
    }
    fn same(&self, o: &Self) -> bool {
        same_iter(self.iter(), o.iter())
    }
}
impl<T: U, const N: usize> U for [T; N] {
    fn values() -> Vec<Self> {
        let n = T::values().len();
        (0..n.clamp(1, CAP))
            .filter_map(|shift| {
                let v: Vec<T> = (0..N).filter_map(|i| T::values().into_iter().nth((i + shift) % n.max(1))).collect();
                v.try_into().ok()
            })
            .collect()
    }
    fn same(&self, o: &Self) -> bool {
        same_iter(self.iter(), o.iter())
    }
}
macro_rules! sets {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        impl<$($g)*> U for $t {
            fn values() -> Vec<Self> { lists::<T>().into_iter().map(|v| v.into_iter().collect()).collect() }
            fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|x| o.get(x).is_some_and(|y| x.same(y))) }
        }
    )*};
}
sets! {
    [T: U + Ord] BTreeSet<T>;
    [T: U + Eq + Hash, S: BuildHasher + Default + 'static] HashSet<T, S>;
}
impl<T: U + Ord> U for BinaryHeap<T> {
    fn values() -> Vec<Self> {
        lists::<T>().into_iter().map(|v| v.into_iter().collect()).collect()
    }
    fn same(&self, o: &Self) -> bool {
        let mut a: Vec<&T> = self.iter().collect();
        let mut b: Vec<&T> = o.iter().collect();
        a.sort();
        b.sort();
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)) && self.peek().map(|p| o.peek().unwrap() == p).unwrap_or(true)
    }
}
fn pairs<K: U, V: U>() -> Vec<Vec<(K, V)>> {
    let mut all = vec![vec![]];
    let (k, v) = (K::values().len(), V::values().len());
    if v == 0 {
        return all;
    }
    let at = |i: usize, j: usize| (K::values().into_iter().nth(i % k).unwrap(), V::values().into_iter().nth(j % v).unwrap());
    for i in 0..k.max(v).min(CAP) {
        all.push(vec![at(i, i)]);
    }
    all.push((0..k).map(|i| at(i, i + 1)).collect());
    all
}
macro_rules! maps {
    ($([$($g:tt)*] $t:ty;)*) => {$(
        impl<$($g)*> U for $t {
            fn values() -> Vec<Self> { pairs::<K, V>().into_iter().map(|v| v.into_iter().collect()).collect() }
            fn same(&self, o: &Self) -> bool {
                self.len() == o.len()
                    && self.iter().all(|(k, v)| o.get_key_value(k).is_some_and(|(x, y)| k.same(x) && v.same(y)))
            }
        }
    )*};
}
maps! {
    [K: U + Ord, V: U] BTreeMap<K, V>;
    [K: U + Eq + Hash, V: U, S: BuildHasher + Default + 'static] HashMap<K, V, S>;
}

macro_rules! tuples {
    ($($name:ident: ($($t:ident $i:tt),*);)*) => {$(
        impl<$($t: U),*> U for ($($t,)*) {
            fn values() -> Vec<Self> {
                let n = [$($t::values().len()),*];
                if n.contains(&0) {
                    return vec![];
                }
                // Every value of every component occurs
                (0..*n.iter().max().unwrap()).map(|r| ($($t::values().into_iter().nth((r + $i) % n[$i]).unwrap(),)*)).collect()
            }
            fn same(&self, o: &Self) -> bool { true $(&& self.$i.same(&o.$i))* }
        }
    )*};
}
tuples! {
    t1: (A 0);
    t2: (A 0, B 1);
    t3: (A 0, B 1, C 2);
    t4: (A 0, B 1, C 2, D 3);
    t5: (A 0, B 1, C 2, D 3, E 4);
    t6: (A 0, B 1, C 2, D 3, E 4, F 5);
    t7: (A 0, B 1, C 2, D 3, E 4, F 5, G 6);
    t8: (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
    t9: (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
    t10: (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
    t11: (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
    t12: (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
    t13: (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12);
    t14: (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13);
    t15: (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14);
    t16: (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15);
    t17: (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16);
    t18: (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16, R 17);
    t19: (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16, R 17, S 18);
    t20: (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, M 12, N 13, O 14, P 15, Q 16, R 17, S 18, T 19);
}
