//! C10: trait objects, static references and static functions along all short paths between processes.
use crate::pass;
use crossmist::{func, static_ref, Deserializer, FnObject, Object, Serializer, StaticFn, StaticRef};
use mc::run::Tier;
use mc::util::{memfd, open_fds, pattern};
use mc::{choose, ensure, Scenario};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub trait Who: Object {
    fn who(&self) -> String;
    /// The second method, so that tables of methods have something to mix up
    fn twice(&self) -> String {
        format!("{0}{0}", self.who())
    }
}
pub trait Other: Object {
    fn other(&self) -> (u64, String);
}
pub trait Conv<T>: Object {
    fn conv(&self) -> T;
}

/// Objects alive in this process.
static LIVE: AtomicI64 = AtomicI64::new(0);

#[derive(Object)]
struct Alpha;
#[derive(Object)]
struct Beta;
#[derive(Object)]
struct Pod(u32, u8);
#[derive(Object)]
struct Text(String);
#[derive(Object)]
struct Handle(File);
#[derive(Object)]
struct Gen<T: Object>(T, u8);
#[derive(Object)]
struct Nest(u8, Box<dyn Who>);
#[derive(Object)]
struct List(Vec<Box<dyn Who>>, Box<dyn Other>);
#[derive(Object)]
#[repr(align(64))]
struct Aligned(u8);
#[derive(Object)]
struct Large([u8; 20000], String);
#[derive(Object)]
struct Twins(Rc<String>, Rc<String>);
#[derive(Object)]
enum Either {
    Left(u32),
    Right(String),
    Neither,
}

struct Counted(String);
impl Counted {
    fn new(s: String) -> Counted {
        LIVE.fetch_add(1, Relaxed);
        Counted(s)
    }
}
impl Drop for Counted {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Relaxed);
    }
}
unsafe impl crossmist::NonTrivialObject for Counted {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize(&self.0);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        Ok(Counted::new(d.deserialize()?))
    }
}

fn content(f: &File) -> String {
    let mut b = vec![0; f.metadata().map(|m| m.len()).unwrap_or(0) as usize];
    let r = f.read_exact_at(&mut b, 0);
    format!("{r:?}{}", String::from_utf8_lossy(&b))
}

macro_rules! who {
    ($($t:ty, $s:ident => $e:expr;)*) => { $(
        impl Who for $t {
            fn who(&self) -> String {
                let $s = self;
                let at = self as *const Self as usize;
                assert!(at % std::mem::align_of::<Self>() == 0, "an object in an unaligned place");
                $e
            }
        }
    )* };
}
who! {
    Alpha, _s => "Alpha".into();
    Beta, _s => "Beta".into();
    Pod, s => format!("Pod {} {}", s.0, s.1);
    Text, s => format!("Text {}", s.0);
    Handle, s => format!("Handle {}", content(&s.0));
    Gen<u8>, s => format!("Gen<u8> {} {}", s.0, s.1);
    Gen<u16>, s => format!("Gen<u16> {} {}", s.0, s.1);
    Gen<String>, s => format!("Gen<String> {} {}", s.0, s.1);
    Gen<Box<dyn Who>>, s => format!("Gen<dyn> {} {}", (*s.0).twice(), s.1);
    Nest, s => format!("Nest {} ({})", s.0, (*s.1).who());
    List, s => format!("List {} {:?}", s.0.iter().map(|w| (**w).who()).collect::<Vec<_>>().join(","), s.1.other());
    Aligned, s => format!("Aligned {}", s.0);
    Large, s => format!("Large {} {}", s.0.iter().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64)), s.1);
    Twins, s => format!("Twins {} {} {}", s.0, s.1, Rc::ptr_eq(&s.0, &s.1));
    Either, s => match s { Either::Left(x) => format!("Left {x}"), Either::Right(x) => format!("Right {x}"), Either::Neither => "Neither".into() };
    Counted, s => format!("Counted {}", s.0);
    u64, s => format!("u64 {s}");
    String, s => format!("String {s}");
    Box<dyn Who>, s => format!("Box {}", (**s).who());
    Option<Box<dyn Who>>, s => format!("Option {:?}", s.as_ref().map(|w| (**w).who()));
    (u8, Box<dyn Other>), s => format!("pair {} {:?}", s.0, s.1.other());
    StaticRef<u64>, s => format!("StaticRef {}", **s);
    StaticFn<fn(u64) -> u64>, s => format!("StaticFn {}", s.get_fn()(1000));
}
macro_rules! other {
    ($($t:ty, $s:ident => $e:expr;)*) => { $(impl Other for $t { fn other(&self) -> (u64, String) { let $s = self; $e } })* };
}
other! {
    Alpha, _s => (1, "alpha".into());
    Beta, _s => (2, "beta".into());
    Pod, s => (s.0 as u64, "pod".into());
    Text, s => (s.0.len() as u64, "text".into());
    Counted, s => (s.0.len() as u64, "counted".into());
    Nest, s => (3, (*s.1).who());
}
macro_rules! conv {
    ($($t:ty, $r:ty, $s:ident => $e:expr;)*) => { $(impl Conv<$r> for $t { fn conv(&self) -> $r { let $s = self; $e } })* };
}
conv! {
    Pod, u64, s => s.0 as u64;
    Pod, String, s => format!("pod{}", s.0);
    Text, u64, s => s.0.len() as u64;
    Text, String, s => s.0.clone();
    Alpha, u64, _s => 77;
    Alpha, String, _s => "seventy-seven".into();
}

/// A trait object's type, and how it was made
#[derive(Object, Clone, Debug)]
enum W {
    Alpha,
    Beta,
    Pod(u32),
    Text(u32),
    Handle(u32),
    Gen8(u8),
    Gen16(u8),
    GenString(u32),
    GenDyn(u8, Box<W>),
    Nest(u8, Box<W>),
    List(Vec<W>, O),
    Aligned(u8),
    Large(u32),
    Twins(u32),
    Left(u32),
    Right(u32),
    Neither,
    Counted(u32),
    U64(u64),
    String(u32),
    Boxed(Box<W>),
    Option(Option<Box<W>>),
    Pair(u8, O),
    Static(u8),
    Func(u8),
    Local(u32),
}
#[derive(Object, Clone, Debug)]
enum O {
    Alpha,
    Beta,
    Pod(u32),
    Text(u32),
    Counted(u32),
    Nest(Box<W>),
}

fn text(n: u32) -> String {
    format!("<{}>", "x".repeat(n as usize % 50)) + &n.to_string()
}

/// A type without a name outside
fn local(n: u32) -> Box<dyn Who> {
    #[derive(Object)]
    struct Alpha(u32, String);
    impl Who for Alpha {
        fn who(&self) -> String {
            format!("local {} {}", self.0, self.1)
        }
    }
    Box::new(Alpha(n, text(n)))
}

fn build_who(w: &W) -> Box<dyn Who> {
    match w {
        W::Alpha => Box::new(Alpha),
        W::Beta => Box::new(Beta),
        W::Pod(n) => Box::new(Pod(*n, 9)),
        W::Text(n) => Box::new(Text(text(*n))),
        W::Handle(n) => Box::new(Handle(memfd(text(*n).as_bytes()))),
        W::Gen8(n) => Box::new(Gen(*n, 1)),
        W::Gen16(n) => Box::new(Gen(*n as u16 * 257, 1)),
        W::GenString(n) => Box::new(Gen(text(*n), 1)),
        W::GenDyn(n, w) => Box::new(Gen(build_who(w), *n)),
        W::Nest(n, w) => Box::new(Nest(*n, build_who(w))),
        W::List(w, o) => Box::new(List(w.iter().map(build_who).collect(), build_other(o))),
        W::Aligned(n) => Box::new(Aligned(*n)),
        W::Large(n) => Box::new(Large(pattern(*n, 20000).try_into().unwrap(), text(*n))),
        W::Twins(n) => {
            let r = Rc::new(text(*n));
            Box::new(Twins(r.clone(), r))
        }
        W::Left(n) => Box::new(Either::Left(*n)),
        W::Right(n) => Box::new(Either::Right(text(*n))),
        W::Neither => Box::new(Either::Neither),
        W::Counted(n) => Box::new(Counted::new(text(*n))),
        W::U64(n) => Box::new(*n),
        W::String(n) => Box::new(text(*n)),
        W::Boxed(w) => Box::new(build_who(w)),
        W::Option(w) => Box::new(w.as_ref().map(|w| build_who(w))),
        W::Pair(n, o) => Box::new((*n, build_other(o))),
        W::Static(i) => Box::new(num(*i)),
        W::Func(i) => Box::new(function(*i)),
        W::Local(n) => local(*n),
    }
}
fn want_who(w: &W) -> String {
    match w {
        W::Alpha => "Alpha".into(),
        W::Beta => "Beta".into(),
        W::Pod(n) => format!("Pod {n} 9"),
        W::Text(n) => format!("Text {}", text(*n)),
        W::Handle(n) => format!("Handle Ok(()){}", text(*n)),
        W::Gen8(n) => format!("Gen<u8> {n} 1"),
        W::Gen16(n) => format!("Gen<u16> {} 1", *n as u16 * 257),
        W::GenString(n) => format!("Gen<String> {} 1", text(*n)),
        W::GenDyn(n, w) => format!("Gen<dyn> {0}{0} {n}", want_who(w)),
        W::Nest(n, w) => format!("Nest {n} ({})", want_who(w)),
        W::List(w, o) => format!("List {} {:?}", w.iter().map(want_who).collect::<Vec<_>>().join(","), want_other(o)),
        W::Aligned(n) => format!("Aligned {n}"),
        W::Large(n) => {
            let sum = pattern(*n, 20000).iter().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64));
            format!("Large {sum} {}", text(*n))
        }
        W::Twins(n) => format!("Twins {0} {0} true", text(*n)),
        W::Left(n) => format!("Left {n}"),
        W::Right(n) => format!("Right {}", text(*n)),
        W::Neither => "Neither".into(),
        W::Counted(n) => format!("Counted {}", text(*n)),
        W::U64(n) => format!("u64 {n}"),
        W::String(n) => format!("String {}", text(*n)),
        W::Boxed(w) => format!("Box {}", want_who(w)),
        W::Option(w) => format!("Option {:?}", w.as_ref().map(|w| want_who(w))),
        W::Pair(n, o) => format!("pair {n} {:?}", want_other(o)),
        W::Static(i) => format!("StaticRef {}", NUM[*i as usize]),
        W::Func(i) => format!("StaticFn {}", FUNC[*i as usize]),
        W::Local(n) => format!("local {n} {}", text(*n)),
    }
}
fn build_other(o: &O) -> Box<dyn Other> {
    match o {
        O::Alpha => Box::new(Alpha),
        O::Beta => Box::new(Beta),
        O::Pod(n) => Box::new(Pod(*n, 9)),
        O::Text(n) => Box::new(Text(text(*n))),
        O::Counted(n) => Box::new(Counted::new(text(*n))),
        O::Nest(w) => Box::new(Nest(3, build_who(w))),
    }
}
fn want_other(o: &O) -> (u64, String) {
    match o {
        O::Alpha => (1, "alpha".into()),
        O::Beta => (2, "beta".into()),
        O::Pod(n) => (*n as u64, "pod".into()),
        O::Text(n) => (text(*n).len() as u64, "text".into()),
        O::Counted(n) => (text(*n).len() as u64, "counted".into()),
        O::Nest(w) => (3, want_who(w)),
    }
}

// Statics of all sections, and constants

static IN_DATA: AtomicU64 = AtomicU64::new(0x1111);
static IN_BSS: AtomicU64 = AtomicU64::new(0);
static ARRAY: [u64; 3] = [21, 22, 23];
static mut ZEROES: [u64; 1 << 16] = [0; 1 << 16];
static NAMES: [&str; 2] = ["first", "second"];
static DYN: [&(dyn Show + Sync); 2] = [&One, &Two];

pub trait Show {
    fn show(&self) -> String;
}
struct One;
struct Two;
impl Show for One {
    fn show(&self) -> String {
        "one".into()
    }
}
impl Show for Two {
    fn show(&self) -> String {
        "two".into()
    }
}
#[repr(align(64))]
struct Empty([u8; 0]);
struct Config {
    name: &'static str,
    f: fn(u64) -> u64,
    next: Option<&'static Config>,
}
const LEAF: Config = Config { name: "leaf", f: add1, next: None };
const ROOT: Config = Config { name: "root", f: u64::swap_bytes, next: Some(&LEAF) };

const NUM: [u64; 8] = [11, 12, 13, 21, 22, 23, 0x1111, 0];
fn num(i: u8) -> StaticRef<u64> {
    const TWELVE: u64 = 6 + 6;
    unsafe {
        match i {
            0 => static_ref!(u64, 11),
            1 => static_ref!(u64, TWELVE),
            2 => generic_ref::<u8>(),
            3 => StaticRef::new_unchecked(&ARRAY[0]),
            4 => StaticRef::new_unchecked(&ARRAY[1]),
            5 => StaticRef::new_unchecked(&ARRAY[2]),
            // Not modified
            6 => StaticRef::new_unchecked(&*IN_DATA.as_ptr()),
            _ => StaticRef::new_unchecked(&*IN_BSS.as_ptr()),
        }
    }
}
fn generic_ref<T>() -> StaticRef<u64> {
    static_ref!(u64, 13)
}
/// Where the static is in this process, if it has one place only.
fn num_at(i: u8) -> Option<usize> {
    Some(match i {
        3..=5 => &ARRAY[i as usize - 3] as *const u64 as usize,
        6 => IN_DATA.as_ptr() as usize,
        7 => IN_BSS.as_ptr() as usize,
        _ => return None,
    })
}

fn add1(x: u64) -> u64 {
    x + 1
}
fn sized<T>(x: u64) -> u64 {
    x + 1000 * std::mem::size_of::<T>() as u64
}
fn recurse(x: u64) -> u64 {
    x + StaticRef::get(num(3)) + unsafe { StaticFn::<fn(u64) -> u64>::new(add1) }.get_fn()(1)
}
trait Assoc {
    fn assoc(x: u64) -> u64;
}
impl Assoc for One {
    fn assoc(x: u64) -> u64 {
        x * 1
    }
}
impl Assoc for Two {
    fn assoc(x: u64) -> u64 {
        x * 2
    }
}
const FUNC: [u64; 9] = [1001, 2000, 5000, 9000, 1023, 3000, 1000, 2000, 1000u64.swap_bytes()];
fn function(i: u8) -> StaticFn<fn(u64) -> u64> {
    unsafe {
        StaticFn::new(match i {
            0 => add1,
            1 => sized::<u8>,
            2 => sized::<u32>,
            3 => sized::<u64>,
            4 => recurse,
            5 => |x| x * 3,
            6 => <One as Assoc>::assoc,
            7 => <Two as Assoc>::assoc,
            _ => u64::swap_bytes,
        })
    }
}

fn make_alpha(_: u8) -> Box<dyn Who> {
    Box::new(Alpha)
}
fn make_text(n: u8) -> Box<dyn Who> {
    Box::new(Text(text(n as u32)))
}
unsafe fn peek(p: *const u64) -> u64 {
    *p
}
unsafe fn peek_twice(p: *const u64) -> u64 {
    *p * 2
}

type Ref = StaticRef<u64>;
type Fun = StaticFn<fn(u64) -> u64>;

/// Lists the references inside of something: where they point, and what is there.
trait Flat {
    fn flat(&self, at: &mut Vec<usize>, what: &mut Vec<u64>);
}
impl Flat for Ref {
    fn flat(&self, at: &mut Vec<usize>, what: &mut Vec<u64>) {
        at.push(self.get() as *const u64 as usize);
        what.push(**self);
    }
}
impl Flat for Fun {
    fn flat(&self, at: &mut Vec<usize>, what: &mut Vec<u64>) {
        at.push(self.get_fn() as usize);
        what.push(self.get_fn()(1000));
    }
}
impl Flat for u8 {
    fn flat(&self, _: &mut Vec<usize>, what: &mut Vec<u64>) {
        what.push(*self as u64);
    }
}
macro_rules! flat {
    ($([$($g:tt)*] $t:ty, $s:ident, $i:pat => $e:expr, $b:expr;)*) => { $(
        impl<$($g)*> Flat for $t {
            fn flat(&self, at: &mut Vec<usize>, what: &mut Vec<u64>) {
                let $s = self;
                for $i in $e {
                    $b.flat(at, what);
                }
            }
        }
    )* };
}
flat! {
    [T: Flat] Option<T>, s, x => s.iter(), x;
    [T: Flat, const N: usize] [T; N], s, x => s.iter(), x;
    [T: Flat] [T], s, x => s.iter(), x;
    [T: Flat] Vec<T>, s, x => s.iter(), x;
    [T: Flat] std::collections::VecDeque<T>, s, x => s.iter(), x;
    [T: Flat] std::collections::LinkedList<T>, s, x => s.iter(), x;
    [T: Flat] std::collections::BTreeMap<u8, T>, s, x => s.iter(), (*x.0, x.1);
    [T: Flat] std::collections::HashMap<u8, T>, s, x => s.iter(), (*x.0, x.1);
    [T: Flat + ?Sized] &T, s, x => [*s], x;
    [T: Flat + ?Sized] Box<T>, s, x => [&**s], x;
    [T: Flat] Rc<T>, s, x => [&**s], x;
    [T: Flat] std::sync::Arc<T>, s, x => [&**s], x;
}
impl<T: Flat, E: Flat> Flat for Result<T, E> {
    fn flat(&self, at: &mut Vec<usize>, what: &mut Vec<u64>) {
        what.push(self.is_ok() as u64);
        match self {
            Ok(x) => x.flat(at, what),
            Err(x) => x.flat(at, what),
        }
    }
}
impl<A: Flat, B: Flat> Flat for (A, B) {
    fn flat(&self, at: &mut Vec<usize>, what: &mut Vec<u64>) {
        self.0.flat(at, what);
        self.1.flat(at, what);
    }
}
impl<A: Flat, B: Flat, C: Flat> Flat for (A, B, C) {
    fn flat(&self, at: &mut Vec<usize>, what: &mut Vec<u64>) {
        ((&self.0, &self.1), &self.2).flat(at, what);
    }
}
#[derive(Object, Clone, Copy)]
struct Plain(u8, Ref);
impl Flat for Plain {
    fn flat(&self, at: &mut Vec<usize>, what: &mut Vec<u64>) {
        (self.0, &self.1).flat(at, what);
    }
}
#[derive(Object, Clone, Copy)]
struct Generic<T: Object> {
    before: u8,
    it: T,
}
impl<T: Object + Flat> Flat for Generic<T> {
    fn flat(&self, at: &mut Vec<usize>, what: &mut Vec<u64>) {
        (self.before, &self.it).flat(at, what);
    }
}
#[derive(Object, Clone, Copy)]
#[repr(u8)]
enum OneOf {
    #[allow(dead_code)]
    Neither,
    Ref(Ref) = 7,
    Fun { f: Fun, n: u8 },
}
impl Flat for OneOf {
    fn flat(&self, at: &mut Vec<usize>, what: &mut Vec<u64>) {
        match self {
            OneOf::Neither => {}
            OneOf::Ref(r) => r.flat(at, what),
            OneOf::Fun { f, n } => (f, *n).flat(at, what),
        }
    }
}

macro_rules! held {
    ($r:ident, $f:ident; $($name:ident($t:ty) = $e:expr;)*) => {
        /// References inside of containers of all kinds.
        #[derive(Object)]
        enum Held { $($name($t)),* }
        const HELD: usize = [$(stringify!($name)),*].len();
        fn held(kind: usize, $r: Ref, $f: Fun) -> Held {
            let all: [fn(Ref, Fun) -> Held; HELD] = [$(|$r, $f| { let _ = (&$r, &$f); Held::$name($e) }),*];
            all[kind]($r, $f)
        }
        impl Flat for Held {
            fn flat(&self, at: &mut Vec<usize>, what: &mut Vec<u64>) {
                match self { $(Held::$name(x) => x.flat(at, what)),* }
            }
        }
    };
}
held! { r, f;
    OptRef(Option<Ref>) = Some(r);
    OptFun(Option<Fun>) = Some(f);
    NoRef(Option<Ref>) = None;
    OptOpt(Option<Option<Ref>>) = Some(Some(r));
    OptPair(Option<(u8, Ref)>) = Some((3, r));
    OkRef(Result<Ref, Fun>) = Ok(r);
    ErrFun(Result<Ref, Fun>) = Err(f);
    ErrByte(Result<Ref, u8>) = Err(9);
    Array([Ref; 2]) = [r, num(4)];
    ArrayFun([Fun; 3]) = [f, function(1), f];
    ArrayOpt([Option<Fun>; 2]) = [None, Some(f)];
    Pair((Ref, Fun)) = (r, f);
    Triple((u8, Ref, u8)) = (1, r, 2);
    Plain(Plain) = Plain(4, r);
    OptPlain(Option<Plain>) = Some(Plain(5, r));
    VecPlain(Vec<Plain>) = vec![Plain(6, r), Plain(7, num(0))];
    GenRef(Generic<Ref>) = Generic { before: 8, it: r };
    GenFun(Generic<Fun>) = Generic { before: 9, it: f };
    GenOpt(Generic<Option<Fun>>) = Generic { before: 10, it: Some(f) };
    OneRef(OneOf) = OneOf::Ref(r);
    OneFun([OneOf; 2]) = [OneOf::Fun { f, n: 11 }, OneOf::Neither];
    Vec(Vec<Ref>) = vec![r, r, num(3)];
    VecFun(Vec<Fun>) = vec![f, function(0)];
    Deque(std::collections::VecDeque<Ref>) = [r, num(5)].into();
    List(std::collections::LinkedList<Fun>) = [f].into();
    BTree(std::collections::BTreeMap<u8, Fun>) = [(1, f), (2, function(2))].into();
    Hash(std::collections::HashMap<u8, Ref>) = [(3, r)].into_iter().collect();
    Boxed(Box<Ref>) = Box::new(r);
    BoxedArray(Box<[Fun; 2]>) = Box::new([f, f]);
    Slice(Box<[Ref]>) = vec![r, num(1)].into();
    Rc(Rc<Fun>) = Rc::new(f);
    Arc(std::sync::Arc<Option<Ref>>) = std::sync::Arc::new(Some(r));
}

/// What travels.
#[derive(Object)]
enum Item {
    Held(Held),
    Who(Box<dyn Who>),
    SendWho(Box<dyn Who + Send>),
    Other(Box<dyn Other>),
    Conv(Box<dyn Conv<u64>>, Box<dyn Conv<String>>),
    Opt(Option<Box<dyn Who>>),
    Deep(Box<Box<Box<dyn Other>>>),
    Slice(Box<[Box<dyn Who>]>),
    Num(StaticRef<u64>),
    Str(StaticRef<&'static str>),
    Dyn(StaticRef<&'static (dyn Show + Sync)>),
    DynConst(StaticRef<&'static (dyn Show + Sync)>),
    Unit(StaticRef<()>),
    Empty(StaticRef<Empty>),
    Zeroes(StaticRef<u64>),
    Config(StaticRef<Config>),
    Fun(StaticFn<fn(u64) -> u64>),
    Unsafe(StaticFn<unsafe fn(*const u64) -> u64>),
    Make(StaticFn<fn(u8) -> Box<dyn Who>>),
    Call(Box<dyn FnObject<(u64,), Output = u64>>),
    BoxFn(Box<StaticFn<fn(u64) -> u64>>, Rc<StaticRef<u64>>),
}
#[derive(Object, Clone, Debug)]
enum M {
    Held(u8, u8, u8),
    Who(W),
    SendWho(u8),
    Other(O),
    Conv(u8, u8),
    Opt(Option<W>),
    Deep(O),
    Slice(Vec<W>),
    Num(u8),
    Str(u8),
    Dyn(u8),
    DynConst(u8),
    Unit,
    Empty,
    Zeroes(u32),
    Config(u8),
    Fun(u8),
    Unsafe(u8),
    Make(u8),
    Call(u8),
    BoxFn(u8, u8),
}

fn build(m: &M) -> Item {
    macro_rules! conv {
        ($n:expr) => {
            match $n {
                0 => Box::new(Pod(40, 0)) as Box<dyn Conv<_>>,
                1 => Box::new(Text(text(3))),
                _ => Box::new(Alpha),
            }
        };
    }
    unsafe {
        match m {
            M::Held(k, i, j) => Item::Held(held(*k as usize, num(*i), function(*j))),
            M::Who(w) => Item::Who(build_who(w)),
            M::SendWho(0) => Item::SendWho(Box::new(Text(text(8)))),
            M::SendWho(_) => Item::SendWho(Box::new(Beta)),
            M::Other(o) => Item::Other(build_other(o)),
            M::Conv(a, b) => Item::Conv(conv!(*a), conv!(*b)),
            M::Opt(w) => Item::Opt(w.as_ref().map(build_who)),
            M::Deep(o) => Item::Deep(Box::new(Box::new(build_other(o)))),
            M::Slice(w) => Item::Slice(w.iter().map(build_who).collect()),
            M::Num(i) => Item::Num(num(*i)),
            M::Str(i) => Item::Str(StaticRef::new_unchecked(&NAMES[*i as usize])),
            M::Dyn(i) => Item::Dyn(StaticRef::new_unchecked(&DYN[*i as usize])),
            M::DynConst(0) => Item::DynConst(static_ref!(&'static (dyn Show + Sync), &One)),
            M::DynConst(_) => Item::DynConst(static_ref!(&'static (dyn Show + Sync), &Two)),
            M::Unit => Item::Unit(static_ref!((), ())),
            M::Empty => Item::Empty(static_ref!(Empty, Empty([]))),
            M::Zeroes(i) => Item::Zeroes(StaticRef::new_unchecked(&*(std::ptr::addr_of!(ZEROES) as *const u64).add(*i as usize))),
            M::Config(0) => Item::Config(static_ref!(Config, ROOT)),
            M::Config(_) => Item::Config(static_ref!(Config, LEAF)),
            M::Fun(i) => Item::Fun(function(*i)),
            M::Unsafe(0) => Item::Unsafe(StaticFn::new(peek)),
            M::Unsafe(_) => Item::Unsafe(StaticFn::new(peek_twice)),
            M::Make(0) => Item::Make(StaticFn::new(make_alpha)),
            M::Make(_) => Item::Make(StaticFn::new(make_text)),
            M::Call(i) => Item::Call(Box::new(function(*i))),
            M::BoxFn(i, j) => Item::BoxFn(Box::new(function(*i)), Rc::new(num(*j))),
        }
    }
}

fn want(m: &M) -> String {
    match m {
        // What it is before it was sent anywhere
        M::Held(..) => describe(&build(m)),
        M::Who(w) => format!("{0} {0}{0}", want_who(w)),
        M::SendWho(0) => format!("send {}", want_who(&W::Text(8))),
        M::SendWho(_) => "send Beta".into(),
        M::Other(o) => format!("{:?}", want_other(o)),
        M::Conv(a, b) => format!(
            "conv {} {}",
            [40, text(3).len(), 77][*a as usize],
            ["pod40", &text(3), "seventy-seven"][*b as usize]
        ),
        M::Opt(w) => format!("opt {:?}", w.as_ref().map(want_who)),
        M::Deep(o) => format!("deep {:?}", want_other(o)),
        M::Slice(w) => format!("slice {:?}", w.iter().map(want_who).collect::<Vec<_>>()),
        M::Num(i) => format!("num {} {:?}", NUM[*i as usize], num_at(*i).map(|_| i)),
        M::Str(i) => format!("str {} {i}", NAMES[*i as usize]),
        M::Dyn(i) => format!("dyn {} {i}", ["one", "two"][*i as usize]),
        M::DynConst(i) => format!("dynconst {}", ["one", "two"][*i as usize]),
        M::Unit => "unit".into(),
        M::Empty => "empty 0 0".into(),
        M::Zeroes(i) => format!("zeroes 0 {i}"),
        M::Config(0) => format!("config root {} leaf", 1u64.swap_bytes()),
        M::Config(_) => "config leaf 2 none".into(),
        M::Fun(i) => format!("fun {}", FUNC[*i as usize]),
        M::Unsafe(i) => format!("unsafe {}", [50, 100][*i as usize]),
        M::Make(0) => "make Alpha".into(),
        M::Make(_) => format!("make {}", want_who(&W::Text(5))),
        M::Call(i) => format!("call {}", FUNC[*i as usize]),
        M::BoxFn(i, j) => format!("boxfn {} {}", FUNC[*i as usize], NUM[*j as usize]),
    }
}

fn describe(i: &Item) -> String {
    fn at<T, U>(r: StaticRef<T>, all: &[U]) -> usize {
        (r.get() as *const T as usize).wrapping_sub(all.as_ptr() as usize) / std::mem::size_of::<U>()
    }
    match i {
        Item::Held(h) => {
            let mut what = Vec::new();
            h.flat(&mut Vec::new(), &mut what);
            format!("held {what:?}")
        }
        Item::Who(w) => format!("{} {}", (**w).who(), (**w).twice()),
        Item::SendWho(w) => format!("send {}", w.who()),
        Item::Other(o) => format!("{:?}", o.other()),
        Item::Conv(a, b) => format!("conv {} {}", a.conv(), b.conv()),
        Item::Opt(w) => format!("opt {:?}", w.as_ref().map(|w| (**w).who())),
        Item::Deep(o) => format!("deep {:?}", o.other()),
        Item::Slice(w) => format!("slice {:?}", w.iter().map(|w| (**w).who()).collect::<Vec<_>>()),
        Item::Num(r) => {
            let p = r.get() as *const u64 as usize;
            format!("num {} {:?}", **r, (0..8).find(|i| num_at(*i) == Some(p)))
        }
        Item::Str(r) => format!("str {} {}", **r, at(*r, &NAMES)),
        Item::Dyn(r) => format!("dyn {} {}", r.show(), at(*r, &DYN)),
        Item::DynConst(r) => format!("dynconst {}", r.show()),
        Item::Unit(r) => {
            let () = **r;
            "unit".into()
        }
        Item::Empty(r) => format!("empty {} {}", r.0.len(), r.get() as *const Empty as usize % 64),
        Item::Zeroes(r) => format!("zeroes {} {}", **r, at(*r, unsafe { &*std::ptr::addr_of!(ZEROES) })),
        Item::Config(c) => format!("config {} {} {}", c.name, (c.f)(1), c.next.map_or("none", |n| n.name)),
        Item::Fun(f) => format!("fun {}", f.get_fn()(1000)),
        Item::Unsafe(f) => format!("unsafe {}", unsafe { f.get_fn()(&50) }),
        Item::Make(f) => format!("make {}", (*f.get_fn()(5)).who()),
        Item::Call(f) => format!("call {}", f.call_object((1000,))),
        Item::BoxFn(f, r) => format!("boxfn {} {}", f.call_object((1000,)), ***r),
    }
}

/// Where the references point, as far as it is one place in a process.
fn places(i: &Item) -> Vec<usize> {
    fn vtable<T: ?Sized>(b: &T) -> usize {
        assert!(std::mem::size_of::<&T>() == 16);
        unsafe { std::mem::transmute_copy::<&T, [usize; 2]>(&b)[1] }
    }
    fn addr<T>(r: StaticRef<T>) -> usize {
        r.get() as *const T as usize
    }
    match i {
        Item::Held(h) => {
            let mut at = Vec::new();
            h.flat(&mut at, &mut Vec::new());
            at
        }
        Item::Who(w) => vec![vtable(&**w)],
        Item::SendWho(w) => vec![vtable(&**w)],
        Item::Other(w) => vec![vtable(&**w)],
        Item::Conv(a, b) => vec![vtable(&**a), vtable(&**b)],
        Item::Opt(w) => w.iter().map(|w| vtable(&**w)).collect(),
        Item::Deep(w) => vec![vtable(&****w)],
        Item::Slice(w) => w.iter().map(|w| vtable(&**w)).collect(),
        Item::Num(r) | Item::Zeroes(r) => vec![addr(*r)],
        Item::Str(r) => vec![addr(*r)],
        Item::Dyn(r) | Item::DynConst(r) => vec![addr(*r)],
        // Nothing is there: any suitably aligned place will do
        Item::Unit(_) | Item::Empty(_) => vec![],
        Item::Config(r) => vec![addr(*r)],
        Item::Fun(f) => vec![f.get_fn() as usize],
        Item::Unsafe(f) => vec![f.get_fn() as usize],
        Item::Make(f) => vec![f.get_fn() as usize],
        Item::Call(f) => vec![vtable(&**f)],
        Item::BoxFn(f, r) => vec![f.get_fn() as usize, addr(**r)],
    }
}

/// `depth`: levels of nesting; `wide`: distinguish everything (or only representatives).
fn choose_who(depth: usize, wide: bool) -> W {
    let n = if wide { 18 } else { 6 } + if depth > 0 { 8 } else { 0 };
    let narrow = if wide { 0 } else { 12 };
    match choose(n) + narrow {
        0 => W::Beta,
        1 => W::Handle(5),
        2 => W::Gen8(6),
        3 => W::Gen16(7),
        4 => W::GenString(8),
        5 => W::Aligned(9),
        6 => W::Twins(10),
        7 => W::Left(11),
        8 => W::Right(12),
        9 => W::Neither,
        10 => W::U64(1 << 63),
        11 => W::Local(13),
        12 => W::Alpha,
        13 => W::Pod(14),
        14 => W::Text(15),
        15 => W::Counted(16),
        16 => W::String(0),
        17 => W::Large(17),
        18 => W::Nest(1, Box::new(choose_who(depth - 1, wide))),
        19 => W::GenDyn(2, Box::new(choose_who(depth - 1, wide))),
        20 => W::Boxed(Box::new(choose_who(depth - 1, wide))),
        21 => W::Option(if choose(2) == 0 { None } else { Some(Box::new(choose_who(depth - 1, wide))) }),
        22 => W::List((0..choose(3)).map(|_| choose_who(0, false)).collect(), choose_other(depth - 1)),
        23 => W::Pair(3, choose_other(depth - 1)),
        24 => W::Static(choose(NUM.len()) as u8),
        _ => W::Func(choose(FUNC.len()) as u8),
    }
}
fn choose_other(depth: usize) -> O {
    match choose(5 + (depth > 0) as usize) {
        0 => O::Alpha,
        1 => O::Beta,
        2 => O::Pod(18),
        3 => O::Text(19),
        4 => O::Counted(20),
        _ => O::Nest(Box::new(choose_who(depth - 1, false))),
    }
}
const KINDS: usize = 21;
fn choose_item(kind: usize, depth: usize, wide: bool) -> M {
    let c = |n: usize| choose(if wide { n } else { n.min(2) }) as u8;
    match kind {
        0 => M::Who(choose_who(depth, wide)),
        1 => M::SendWho(c(2)),
        2 => M::Other(choose_other(depth)),
        3 => M::Conv(c(3), c(3)),
        4 => M::Opt(if choose(2) == 0 { None } else { Some(choose_who(depth.min(1) / 2, false)) }),
        5 => M::Deep(choose_other(0)),
        6 => M::Slice((0..choose(3)).map(|_| choose_who(0, false)).collect()),
        7 => M::Num(c(NUM.len())),
        8 => M::Str(c(2)),
        9 => M::Dyn(c(2)),
        10 => M::DynConst(c(2)),
        11 => M::Unit,
        12 => M::Zeroes([0, 1, 65535][c(3) as usize]),
        13 => M::Config(c(2)),
        14 => M::Fun(c(FUNC.len())),
        15 => M::Unsafe(c(2)),
        16 => M::Make(c(2)),
        17 => M::Call(c(FUNC.len())),
        18 => M::Empty,
        19 => M::Held(choose(HELD) as u8, c(NUM.len()), c(FUNC.len())),
        _ => M::BoxFn(c(FUNC.len()), c(NUM.len())),
    }
}

fn battery() -> Vec<M> {
    let mut v = vec![
        M::Who(W::Alpha),
        M::Who(W::List(vec![W::Beta, W::Text(1), W::Nest(1, Box::new(W::Handle(2)))], O::Nest(Box::new(W::Local(3))))),
        M::Other(O::Counted(4)),
        M::Conv(0, 1),
        M::Slice(vec![W::Neither, W::Static(7), W::Func(4)]),
        M::Unit,
        M::Empty,
        M::Zeroes(0),
        M::Zeroes(65535),
        M::BoxFn(3, 6),
    ];
    v.extend((0..2).flat_map(|i| [M::SendWho(i), M::Str(i), M::Dyn(i), M::DynConst(i), M::Config(i), M::Unsafe(i), M::Make(i)]));
    v.extend((0..HELD).map(|k| M::Held(k as u8, k as u8 % 8, k as u8 % 9)));
    v.extend((0..NUM.len()).map(|i| M::Num(i as u8)));
    v.extend((0..FUNC.len()).flat_map(|i| [M::Fun(i as u8), M::Call(i as u8)]));
    v
}

/// Where this process was loaded.
fn base() -> usize {
    IN_DATA.as_ptr() as usize
}

#[func]
fn inspect(items: Vec<Item>) -> (Vec<String>, usize, Vec<Item>) {
    (items.iter().map(describe).collect(), base(), items)
}
/// Receive objects and have another process look at them.
#[func]
fn relay(items: Vec<Item>) -> (Vec<String>, usize, Vec<Item>) {
    let mine: Vec<_> = items.iter().map(describe).collect();
    let (theirs, at, items) = inspect.run(items).unwrap();
    if mine != theirs {
        return (vec![format!("a child read {mine:?}, its child {theirs:?}")], at, items);
    }
    (theirs, at, items)
}
/// The objects' home is a child.
#[func]
fn originate(m: Vec<M>) -> (usize, Vec<Item>) {
    (base(), m.iter().map(build).collect())
}
#[func]
fn forward(mut rx: crossmist::Receiver<Vec<Item>>, mut tx: crossmist::Sender<Vec<Item>>) -> usize {
    while let Some(items) = rx.recv().unwrap() {
        tx.send(&items).unwrap();
    }
    base()
}

fn direct(o: &Vec<Item>) -> Result<Vec<Item>, String> {
    let mut s = Serializer::new();
    s.serialize(o);
    s.serialize(&0x5555u16);
    let h = s.drain_handles().iter().map(|h| h.try_clone_to_owned().unwrap()).collect();
    let mut d = Deserializer::new(s.into_vec(), h);
    unsafe {
        let r = d.deserialize().map_err(|e| e.to_string())?;
        ensure!(d.deserialize::<u16>().map_err(|e| e.to_string())? == 0x5555, "what follows was altered");
        Ok(r)
    }
}

const PATHS: [&str; 7] = ["direct", "channel", "child", "grandchild", "from child", "forwarded", "children's"];

fn e2s(e: std::io::Error) -> String {
    format!("running a child: {e}")
}

/// Returns where the other process was loaded.
fn travel(m: &Vec<M>, path: usize) -> Result<usize, String> {
    let live = LIVE.load(Relaxed);
    let before = open_fds().len();
    let w: Vec<_> = m.iter().map(want).collect();
    let home: Vec<_> = {
        // Every process has the same items in the same places
        m.iter().map(|m| places(&build(m))).collect()
    };
    let near = |r: &[String], whose: &str| -> Result<(), String> {
        for (r, w) in r.iter().zip(&w) {
            ensure!(r == w, "{whose} received {r:.200} instead of {w:.200}");
        }
        ensure!(r.len() == w.len(), "{whose} received {} objects instead of {}", r.len(), w.len());
        Ok(())
    };
    let back = |r: &[Item]| -> Result<(), String> {
        near(&r.iter().map(describe).collect::<Vec<_>>(), "the parent")?;
        for (i, h) in r.iter().zip(&home) {
            let p = places(i);
            ensure!(p == *h, "a reference came back as another one: {p:x?} instead of {h:x?}, although it behaves the same");
        }
        Ok(())
    };
    let make = || -> Vec<Item> { m.iter().map(build).collect() };
    let mut other = base();
    match path {
        0 => back(&direct(&make())?)?,
        1 => {
            let o = make();
            let r = pass(&o)?;
            back(&r)?;
            back(&o)?;
        }
        2 | 3 => {
            let f = if path == 2 { inspect.run(make()) } else { relay.run(make()) };
            let (r, at, items) = f.map_err(e2s)?;
            other = at;
            near(&r, "the child")?;
            back(&items)?;
        }
        4 => {
            let (at, items) = originate.run(m.clone()).map_err(e2s)?;
            other = at;
            back(&items)?;
        }
        5 => {
            let (mut tx, rx) = crossmist::channel().map_err(|e| e.to_string())?;
            let (tx2, mut rx2) = crossmist::channel().map_err(|e| e.to_string())?;
            let c = forward.spawn(rx, tx2).map_err(e2s)?;
            for _ in 0..2 {
                tx.send(&make()).map_err(|e| e.to_string())?;
                back(&rx2.recv().map_err(|e| e.to_string())?.ok_or("objects lost")?)?;
            }
            drop(tx);
            other = c.join().map_err(e2s)?;
        }
        _ => {
            // From one child to its sibling, which was loaded elsewhere
            let (at, items) = originate.run(m.clone()).map_err(e2s)?;
            let (r, at2, items) = inspect.run(items).map_err(e2s)?;
            near(&r, "the second child")?;
            back(&items)?;
            other = at.min(at2);
        }
    }
    ensure!(open_fds().len() == before, "handles leaked");
    ensure!(LIVE.load(Relaxed) == live, "{} objects leaked", LIVE.load(Relaxed) - live);
    Ok(other)
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    for path in 0..PATHS.len() {
        let near = path < 2;
        // (length of the sequence, levels of nesting, distinguish everything)
        let mut shapes = vec![(1, 1, true), (2, 0, false)];
        if thorough {
            shapes = if near {
                if path == 0 { vec![(1, 2, true), (2, 1, true), (3, 0, false)] } else { vec![(1, 2, true), (2, 1, false)] }
            } else {
                vec![(1, 2, false), (1, 1, true), (2, 0, path < 4)]
            };
        } else if path > 2 {
            shapes = vec![(1, 1, true)];
        }
        for (len, depth, wide) in shapes {
            for kind in 0..KINDS {
                v.push(Scenario::new(format!("{}/{len} {depth} {wide}/{kind}", PATHS[path]), 0, move || {
                    let m: Vec<_> =
                        (0..len).map(|i| choose_item(if i == 0 { kind } else { choose(KINDS) }, depth, wide)).collect();
                    travel(&m, path)?;
                    Ok(format!("{m:?}"))
                }));
            }
        }
        if path != 1 {
            // More than 8 bits can count
            v.push(Scenario::new(format!("{}/many", PATHS[path]), 0, move || {
                let n = [255, 256, 257, 300, 1000][choose(if thorough { 5 } else { 4 })];
                let m: Vec<_> = battery().into_iter().cycle().take(n).collect();
                travel(&m, path)?;
                Ok(format!("{n}"))
            }));
        }
        v.push(Scenario::new(format!("{}/all at once", PATHS[path]), 0, move || {
            let mut m = battery();
            match choose(3) {
                0 => {}
                1 => m.reverse(),
                _ => m.extend(m.clone()),
            }
            travel(&m, path)?;
            Ok(format!("{}", m.len()))
        }));
    }
    // Processes above, below and (if possible) at the parent's own address. Where a process is loaded
    // is up to the kernel, so there are as many children as it takes.
    v.push(Scenario::new("layouts", 0, move || {
        let path = [2, 3, 4, 5][choose(4)];
        let fixed = choose(2) == 1;
        let m = battery();
        let (mut above, mut below, mut equal) = (false, false, false);
        let old = unsafe { libc::personality(0xffff_ffff) };
        let reset = || unsafe { libc::personality(old as libc::c_ulong) };
        for _ in 0..64 {
            if fixed {
                // No randomization: children are at the same address, the parent elsewhere
                unsafe { libc::personality(old as libc::c_ulong | libc::ADDR_NO_RANDOMIZE as libc::c_ulong) };
            }
            let at = travel(&m, path);
            reset();
            let at = at?;
            above |= at > base();
            below |= at < base();
            equal |= at == base();
            if fixed || (above && below) {
                break;
            }
        }
        // A child without randomization is always in the same place, relative to a parent that is not
        Ok(if fixed { format!("{path} fixed") } else { format!("{path} above {above} below {below} equal {equal}") })
    }));
    v
}
