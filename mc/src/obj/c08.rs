//! C08: derived types beyond the grammar of shapes.rs: generics, recursion, names, attributes, macros.
use crate::c07::*;
use crate::shapes::{combos, n, pick};
use crate::uni::*;
use crossmist::{Deserializer, NonTrivialObject, Object, Serializer};
use mc::Scenario;
use std::collections::*;
use std::fmt::Debug;
use std::fs::File;
use std::marker::PhantomData;
use std::rc::Rc;

/// A struct whose fields are given once.
macro_rules! record {
    ($v:ident, $(#[$m:meta])* struct $name:ident { $($(#[$fm:meta])* $f:ident: $t:ty),* $(,)? }) => {{
        #[derive(Object)]
        $(#[$m])*
        struct $name { $($(#[$fm])* $f: $t),* }
        impl U for $name {
            fn values() -> Vec<Self> {
                let m = [$(n::<$t>()),*].into_iter().max().unwrap_or(1);
                (0..m).map(|_i| $name { $($f: pick(_i % n::<$t>())),* }).collect()
            }
            fn same(&self, _o: &Self) -> bool { true $(&& self.$f.same(&_o.$f))* }
        }
        check::<$name>($v);
        check::<Vec<$name>>($v);
        check::<(u8, Option<$name>, u64)>($v);
    }};
}

/// A type that can be compared.
macro_rules! eq {
    ($v:ident, $t:ty, [$($x:expr),* $(,)?]) => {{
        struct W($t);
        unsafe impl NonTrivialObject for W {
            fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) { s.serialize(&self.0) }
            unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> { Ok(W(d.deserialize()?)) }
        }
        impl U for W {
            fn values() -> Vec<Self> { vec![$(W($x)),*] }
            fn same(&self, o: &Self) -> bool { self.0 == o.0 }
        }
        let mut one = Vec::new();
        check::<W>(&mut one);
        check::<Vec<W>>(&mut one);
        check::<[W; 3]>(&mut one);
        for mut s in one {
            s.name = format!("{} {}", stringify!($t), s.name);
            $v.push(s);
        }
    }};
}

#[derive(Object, Debug, PartialEq, Clone)]
struct One<T: Object>(T);
#[derive(Object, Debug, PartialEq, Clone)]
struct Two<A: Object, B>
where
    B: Object,
{
    b: B,
    a: A,
}
#[derive(Object, Debug, PartialEq, Clone)]
struct Defaulted<A: Object + Debug = u8, B: Object = String>(A, Vec<B>);
#[derive(Object, Debug, PartialEq, Clone)]
struct Sized_<const N: usize, T: Object>([T; N], u8);
#[derive(Object, Debug, PartialEq, Clone)]
struct Sized2<const N: usize = 2>([u32; N]);
#[derive(Object, Debug, PartialEq, Clone)]
struct Phantom<T>(PhantomData<T>, u8)
where
    T: 'static;
#[derive(Object)]
struct Projected<I: Iterator>(u8, I::Item)
where
    I::Item: Object;
impl<I: Iterator> PartialEq for Projected<I>
where
    I::Item: Object + PartialEq,
{
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0 && self.1 == o.1
    }
}
#[derive(Object, Debug, PartialEq, Clone)]
enum Either<L: Object, R: Object> {
    Left(L),
    Right { r: R, s: L },
    Neither,
}
#[derive(Object, Debug, PartialEq, Clone)]
enum Where<L>
where
    L: Object + Clone,
    Vec<L>: Clone,
{
    A(Vec<L>),
    B(L, L),
}
#[derive(Object, Debug, PartialEq, Clone)]
struct List {
    value: u8,
    next: Option<Box<List>>,
}
#[derive(Object, Debug, PartialEq, Clone)]
enum Tree {
    Leaf,
    Value(u16),
    Node(Box<Tree>, Box<Tree>),
    Many { of: Vec<Tree>, named: BTreeMap<String, Tree> },
}
#[derive(Object, Debug, PartialEq, Clone)]
struct Ping(Option<Box<Pong>>, u8);
#[derive(Object, Debug, PartialEq, Clone)]
enum Pong {
    Back(Box<Ping>),
    Stop(String),
}
#[derive(Object, Debug, PartialEq, Clone)]
enum Grow<T: Object> {
    End(T),
    More(T, Box<Grow<T>>),
}
#[derive(Object, Debug, PartialEq, Clone, Copy, Default)]
#[repr(C)]
struct Padded {
    a: u8,
    b: u64,
    c: u8,
}
#[derive(Object, Debug, PartialEq, Clone, Copy)]
#[repr(C, align(64))]
struct Aligned(u8, u32);
#[derive(Object, Debug, PartialEq, Clone)]
#[repr(transparent)]
struct Transparent(String);
/// Documented
#[derive(Object, Debug, PartialEq, Clone, Default)]
#[allow(dead_code)]
enum Attributed {
    /// Documented
    #[default]
    #[allow(dead_code)]
    First,
    Second(
        /// Documented
        #[allow(dead_code)]
        u8,
    ),
    Third {
        /// Documented
        #[allow(dead_code)]
        string: String,
    },
}
macro_rules! declared {
    ($(#[$m:meta])* $name:ident, $e:ident, $t:ty, $n:expr, $f:ident) => {
        $(#[$m])*
        #[derive(Object, Debug, PartialEq, Clone)]
        pub(crate) struct $name { pub $f: $t, pub b: [$t; $n] }
        #[derive(Object, Debug, PartialEq, Clone)]
        #[allow(non_camel_case_types)]
        pub(crate) enum $e { $name($t, $name), $f { $f: $t } }
    };
}
declared!(#[allow(non_camel_case_types)] FromMacro, FromMacroE, Vec<u8>, 2, field);

/// Names that the derived code might mean something else by.
mod shadow {
    pub mod plain {
        #[derive(crossmist::Object, Debug, PartialEq, Clone)]
        pub struct Result(pub u8);
        #[derive(crossmist::Object, Debug, PartialEq, Clone)]
        pub struct Object {
            pub result: Result,
        }
        #[derive(crossmist::Object, Debug, PartialEq, Clone)]
        pub enum Option {
            Some(Object),
            None,
        }
        #[derive(crossmist::Object, Debug, PartialEq, Clone)]
        pub struct Serializer(pub Deserializer, pub String);
        #[derive(crossmist::Object, Debug, PartialEq, Clone)]
        pub struct Deserializer;
        #[derive(crossmist::Object, Debug, PartialEq, Clone)]
        pub struct String {
            pub self_: std::string::String,
        }
        #[derive(crossmist::Object, Debug, PartialEq, Clone)]
        pub struct Vec<T: crossmist::Object>(pub T);
        #[derive(crossmist::Object, Debug, PartialEq, Clone)]
        pub struct PlainOldData(pub std::string::String);
        #[derive(crossmist::Object, Debug, PartialEq, Clone)]
        pub struct NonTrivialObject(pub u8);
        pub mod crossmist_ {}
        pub mod std_ {}
    }
    #[allow(dead_code)]
    pub fn unused() {}
}

mod raw {
    use crossmist::Object;
    #[derive(Object, Debug, PartialEq, Clone)]
    #[allow(non_camel_case_types)]
    pub struct r#struct {
        pub r#fn: u8,
        pub r#match: String,
    }
    #[derive(Object, Debug, PartialEq, Clone)]
    #[allow(non_camel_case_types)]
    pub enum r#enum {
        r#if(u8),
        r#while { r#loop: String, r#in: u8 },
        r#else,
    }
}

mod private {
    use crossmist::Object;
    #[derive(Object, Debug, PartialEq, Clone)]
    struct Hidden(u8, String);
    #[derive(Object, Debug, PartialEq, Clone)]
    pub struct Public {
        hidden: Hidden,
        pub open: u8,
    }
    #[derive(Object, Debug, PartialEq, Clone)]
    #[allow(private_interfaces)]
    pub enum PublicE {
        A(u8),
    }
    impl Public {
        pub fn new(a: u8, b: &str) -> Self {
            Public { hidden: Hidden(a, b.into()), open: !a }
        }
    }
}

#[derive(Object)]
struct Callbacks {
    before: u8,
    f: Box<dyn crossmist::FnObject<(u8,), Output = u8>>,
    d: crossmist::Delayed<(u8, File)>,
    tx: crossmist::Sender<u8>,
    rx: crossmist::Receiver<u8>,
    shared: (Rc<File>, Rc<File>),
    after: String,
}

fn callbacks() -> mc::Verdict {
    use mc::ensure;
    let (tx, rx) = crossmist::channel::<u8>().map_err(|e| e.to_string())?;
    let f = Rc::new(mc::files::dup(1));
    let o = Callbacks {
        before: 1,
        f: crossmist::lambda! { |x: u8| -> u8 { x + 1 } },
        d: crossmist::Delayed::new((9, mc::files::dup(2))),
        tx,
        rx,
        shared: (f.clone(), f),
        after: "after".into(),
    };
    let mut r = pass(&[o])?;
    let r = &mut r[0];
    ensure!(r.before == 1 && r.after == "after", "plain fields altered");
    ensure!(r.f.call_object((4,)) == 5, "callable altered");
    ensure!(Rc::ptr_eq(&r.shared.0, &r.shared.1), "sharing lost");
    r.tx.send(&8).map_err(|e| e.to_string())?;
    ensure!(r.rx.recv().map_err(|e| e.to_string())? == Some(8), "channel altered");
    Ok(String::new())
}

#[derive(Object)]
struct Lifetime<'a>(PhantomData<&'a ()>, u8);
#[derive(Object)]
struct Bounded<'a, 'b: 'a, T: Object + 'a, const N: usize>(PhantomData<&'a &'b ()>, [T; N]);

pub fn scenarios(v: &mut Vec<Scenario>) {
    record!(v, struct Empty {});
    record!(v, struct A { s: u8 });
    record!(v, struct B { d: String, s: u64, x: u8 });
    record!(v, #[repr(C)] struct C { a: u8, b: u64, c: Vec<String>, f: File });
    record!(v, struct Wide { a: u8, b: u16, c: u32, d: u64, e: u128, f: i8, g: i16, h: i32, i: i64, j: i128, k: bool, l: char, m: f32, n: f64,
        o: String, p: File, q: (), r: [u8; 3], s: [String; 2], t: Box<u8>, u: Box<File>, v: Vec<u8>, w: Rc<String>, x: Option<File>,
        y: (u8, u64), z: Result<u8, String> });
    record!(v, struct Collections { a: BTreeMap<u8, String>, b: HashMap<String, u8>, c: HashSet<u8>, d: BTreeSet<String>,
        e: VecDeque<u8>, f: LinkedList<String>, g: std::path::PathBuf, h: std::ffi::OsString, i: std::time::Duration, j: PhantomData<String> });

    eq!(v, One<u8>, [One(0), One(255)]);
    eq!(v, One<String>, [One("".into()), One("text".into())]);
    eq!(v, One<One<One<u64>>>, [One(One(One(0))), One(One(One(u64::MAX)))]);
    eq!(v, One<()>, [One(())]);
    eq!(v, Two<u8, u64>, [Two { a: 1, b: 2 }, Two { a: 255, b: u64::MAX - 1 }]);
    eq!(v, Two<u8, String>, [Two { a: 1, b: "b".into() }]);
    eq!(v, Two<String, u8>, [Two { a: "a".into(), b: 1 }]);
    eq!(v, Two<Vec<u8>, Option<Box<String>>>, [Two { a: vec![1, 2], b: None }, Two { a: vec![], b: Some(Box::new("x".into())) }]);
    eq!(v, Defaulted, [Defaulted(1, vec![]), Defaulted(2, vec!["a".into(), "b".into()])]);
    eq!(v, Defaulted<String, u8>, [Defaulted("a".into(), vec![1, 2, 3])]);
    eq!(v, Sized_<0, String>, [Sized_([], 1)]);
    eq!(v, Sized_<3, u8>, [Sized_([1, 2, 3], 4), Sized_([255, 0, 255], 0)]);
    eq!(v, Sized_<2, String>, [Sized_(["a".into(), "b".into()], 4)]);
    eq!(v, Sized2, [Sized2([1, 2])]);
    eq!(v, Sized2<5>, [Sized2([1, 2, 3, 4, u32::MAX])]);
    eq!(v, Phantom<String>, [Phantom(PhantomData, 1), Phantom(PhantomData, 2)]);
    eq!(v, Projected<std::vec::IntoIter<u8>>, [Projected(1, 2)]);
    eq!(v, Projected<std::vec::IntoIter<String>>, [Projected(1, "2".into())]);
    eq!(v, Either<u8, String>, [Either::Left(1), Either::Right { r: "r".into(), s: 2 }, Either::Neither]);
    eq!(v, Either<u64, u8>, [Either::Left(u64::MAX), Either::Right { r: 3, s: 2 }, Either::Neither]);
    eq!(v, Either<(), Either<u8, ()>>, [Either::Left(()), Either::Right { r: Either::Neither, s: () },
        Either::Right { r: Either::Left(7), s: () }]);
    eq!(v, Where<u8>, [Where::A(vec![]), Where::A(vec![1, 2]), Where::B(3, 4)]);
    eq!(v, Where<String>, [Where::A(vec!["x".into()]), Where::B("y".into(), "z".into())]);
    fn l(n: u8) -> Option<Box<List>> {
        (0..n).fold(None, |next, value| Some(Box::new(List { value, next })))
    }
    eq!(v, List, [*l(1).unwrap(), *l(2).unwrap(), *l(200).unwrap()]);
    fn t(n: u16) -> Tree {
        Tree::Node(Box::new(Tree::Value(n)), Box::new(Tree::Leaf))
    }
    eq!(v, Tree, [Tree::Leaf, t(1), Tree::Node(Box::new(t(1)), Box::new(t(2))),
        Tree::Many { of: vec![t(3), Tree::Leaf, t(4)], named: [("a".into(), t(5)), ("b".into(), Tree::Many { of: vec![], named: BTreeMap::new() })].into() }]);
    eq!(v, Ping, [Ping(None, 1), Ping(Some(Box::new(Pong::Stop("s".into()))), 2),
        Ping(Some(Box::new(Pong::Back(Box::new(Ping(Some(Box::new(Pong::Stop("t".into()))), 3))))), 4)]);
    eq!(v, Grow<u8>, [Grow::End(1), Grow::More(2, Box::new(Grow::More(3, Box::new(Grow::End(4)))))]);
    eq!(v, Grow<String>, [Grow::More("2".into(), Box::new(Grow::End("4".into())))]);
    eq!(v, Padded, [Padded::default(), Padded { a: 255, b: u64::MAX, c: 1 }]);
    eq!(v, Aligned, [Aligned(1, 2), Aligned(255, u32::MAX)]);
    eq!(v, Transparent, [Transparent("t".into())]);
    eq!(v, Attributed, [Attributed::First, Attributed::Second(8), Attributed::Third { string: "x".into() }]);
    eq!(v, FromMacro, [FromMacro { field: vec![1, 2], b: [vec![], vec![3]] }]);
    eq!(v, FromMacroE, [FromMacroE::field { field: vec![1] }, FromMacroE::FromMacro(vec![2], FromMacro { field: vec![], b: [vec![4], vec![]] })]);
    use shadow::plain as p;
    eq!(v, p::Result, [p::Result(1)]);
    eq!(v, p::Option, [p::Option::None, p::Option::Some(p::Object { result: p::Result(2) })]);
    eq!(v, p::Serializer, [p::Serializer(p::Deserializer, p::String { self_: "x".into() })]);
    eq!(v, p::Vec<String>, [p::Vec("x".into())]);
    eq!(v, p::PlainOldData, [p::PlainOldData("x".into())]);
    eq!(v, p::NonTrivialObject, [p::NonTrivialObject(1)]);
    eq!(v, raw::r#struct, [raw::r#struct { r#fn: 1, r#match: "m".into() }]);
    eq!(v, raw::r#enum, [raw::r#enum::r#if(1), raw::r#enum::r#while { r#loop: "m".into(), r#in: 2 }, raw::r#enum::r#else]);
    eq!(v, private::Public, [private::Public::new(1, "a"), private::Public::new(2, "")]);
    eq!(v, private::PublicE, [private::PublicE::A(1)]);
    v.push(Scenario::new("lifetimes", 0, || {
        let o = (Lifetime(PhantomData, 3), Bounded::<String, 2>(PhantomData, ["a".into(), "b".into()]));
        let r = pass(&o)?;
        mc::ensure!(r.0 .1 == 3 && r.1 .1 == o.1 .1, "altered");
        Ok(String::new())
    }));
    v.push(Scenario::new("special fields", 0, callbacks));
    // Through a channel, between neighbours
    send::<crate::shapes::Sample1>(v);
    send::<crate::shapes::Sample2>(v);
    let _ = combos;
}
