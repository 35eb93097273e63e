//! C09: all small acyclic sharing graphs.
use crossmist::{func, Deserializer, NonTrivialObject, Object, Serializer};
use mc::run::Tier;
use mc::{choose, deviate, ensure, Scenario};
use std::fs::File;
use std::io::Result as IoResult;
use std::num::NonZeroUsize;
use std::rc::Rc;
use std::sync::Arc;

/// A user-defined shared pointer, implemented as the documentation says.
pub struct My<T: 'static>(Rc<T>);
unsafe impl<T: 'static + Object> NonTrivialObject for My<T> {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        match s.learn_cyclic(Rc::as_ptr(&self.0) as *const _) {
            None => {
                s.serialize_temporary(0usize);
                s.serialize(&*self.0);
            }
            Some(id) => s.serialize_temporary(id),
        }
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> IoResult<Self> {
        match NonZeroUsize::new(d.deserialize::<usize>()?) {
            None => {
                let id = d.reserve_cyclic();
                let rc = Rc::<T>::new(d.deserialize()?);
                d.set_cyclic(id, rc.clone());
                Ok(My(rc))
            }
            Some(id) => Ok(My(d.get_cyclic::<Rc<T>>(id).clone())),
        }
    }
}

/// A user-defined shared leaf that learns of itself after being built, as its contents share nothing.
pub struct Leaf(Rc<String>);
unsafe impl NonTrivialObject for Leaf {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        match s.learn_cyclic(Rc::as_ptr(&self.0) as *const _) {
            None => {
                s.serialize_temporary(0usize);
                s.serialize(&*self.0);
            }
            Some(id) => s.serialize_temporary(id),
        }
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> IoResult<Self> {
        match NonZeroUsize::new(d.deserialize::<usize>()?) {
            None => {
                let rc = Rc::<String>::new(d.deserialize()?);
                d.learn_cyclic(rc.clone());
                Ok(Leaf(rc))
            }
            Some(id) => Ok(Leaf(d.get_cyclic::<Rc<String>>(id).clone())),
        }
    }
}

pub struct Node {
    id: usize,
    kids: Vec<Ref>,
    name: String,
}
unsafe impl NonTrivialObject for Node {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize(&self.id);
        s.serialize(&self.kids);
        s.serialize(&self.name);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> IoResult<Self> {
        Ok(Node { id: d.deserialize()?, kids: d.deserialize()?, name: d.deserialize()? })
    }
}

pub enum Ptr {
    R(Rc<Node>),
    A(Arc<Node>),
    M(My<Node>),
    L(Leaf),
}
unsafe impl NonTrivialObject for Ptr {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        match self {
            Ptr::R(p) => {
                s.serialize_temporary(0u8);
                s.serialize(p)
            }
            Ptr::A(p) => {
                s.serialize_temporary(1u8);
                s.serialize(p)
            }
            Ptr::M(p) => {
                s.serialize_temporary(2u8);
                s.serialize(p)
            }
            Ptr::L(p) => {
                s.serialize_temporary(3u8);
                s.serialize(p)
            }
        }
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> IoResult<Self> {
        Ok(match d.deserialize::<u8>()? {
            0 => Ptr::R(d.deserialize()?),
            1 => Ptr::A(d.deserialize()?),
            2 => Ptr::M(d.deserialize()?),
            _ => Ptr::L(d.deserialize()?),
        })
    }
}
impl Ptr {
    fn share(&self) -> Ptr {
        match self {
            Ptr::R(p) => Ptr::R(p.clone()),
            Ptr::A(p) => Ptr::A(p.clone()),
            Ptr::M(p) => Ptr::M(My(p.0.clone())),
            Ptr::L(p) => Ptr::L(Leaf(p.0.clone())),
        }
    }
    fn node(&self) -> Option<&Node> {
        match self {
            Ptr::R(p) => Some(p),
            Ptr::A(p) => Some(p),
            Ptr::M(p) => Some(&p.0),
            Ptr::L(_) => None,
        }
    }
    fn address(&self) -> usize {
        match self {
            Ptr::L(p) => Rc::as_ptr(&p.0) as usize,
            _ => self.node().unwrap() as *const Node as usize,
        }
    }
    fn kind(&self) -> usize {
        match self {
            Ptr::R(_) => 0,
            Ptr::A(_) => 1,
            Ptr::M(_) => 2,
            Ptr::L(_) => 3,
        }
    }
}

/// A pointer, possibly serialized by way of a temporary.
pub struct Ref {
    temporary: bool,
    to: Ptr,
}
unsafe impl NonTrivialObject for Ref {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize(&self.temporary);
        if self.temporary {
            s.serialize_temporary(self.to.share());
        } else {
            s.serialize(&self.to);
        }
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> IoResult<Self> {
        Ok(Ref { temporary: d.deserialize()?, to: d.deserialize()? })
    }
}

/// (what is pointed to, the address, whether inside of a temporary) for every pointer, depth first.
fn walk(refs: &[Ref], inside: bool, out: &mut Vec<(usize, usize, usize, bool)>) -> Result<(), String> {
    for r in refs {
        let t = inside || r.temporary;
        match r.to.node() {
            Some(n) => {
                ensure!(n.name == label(n.id), "a pointee was altered");
                out.push((r.to.kind(), n.id, r.to.address(), t));
                walk(&n.kids, t, out)?;
            }
            None => {
                let Ptr::L(l) = &r.to else { unreachable!() };
                let id = l.0.trim_start_matches("leaf").parse().map_err(|_| "a leaf was altered")?;
                out.push((3, id, r.to.address(), t));
            }
        }
    }
    Ok(())
}

fn label(id: usize) -> String {
    format!("node {id} {}", "+".repeat(id * 3))
}

fn compare(sent: &[Ref], got: &[Ref]) -> Result<usize, String> {
    let (mut a, mut b) = (Vec::new(), Vec::new());
    walk(sent, false, &mut a)?;
    walk(got, false, &mut b)?;
    ensure!(a.len() == b.len(), "another number of pointers");
    for (x, y) in a.iter().zip(&b) {
        ensure!((x.0, x.1, x.3) == (y.0, y.1, y.3), "a pointer refers to another object");
        ensure!(a.iter().all(|z| z.2 != y.2), "a received pointer refers to the sender's object");
    }
    let mut shared = 0;
    for i in 0..a.len() {
        for j in 0..i {
            if a[i].2 != a[j].2 {
                ensure!(b[i].2 != b[j].2, "pointers to different allocations refer to one");
            } else if !a[i].3 && !a[j].3 {
                ensure!(b[i].2 == b[j].2, "pointers to one allocation refer to different ones");
                shared += 1;
            }
        }
    }
    Ok(shared)
}

fn graph(n: usize, roots: usize, kinds: usize) -> Vec<Ref> {
    // Node i points to nodes built before it
    let mut built: Vec<Ptr> = Vec::new();
    let pick = |built: &Vec<Ptr>| Ref { to: built[choose(built.len())].share(), temporary: deviate(2) == 1 };
    for id in 0..n {
        let kind = choose(if id == 0 { kinds } else { kinds.min(3) });
        if kind == 3 {
            built.push(Ptr::L(Leaf(Rc::new(format!("leaf{id}")))));
            continue;
        }
        let k = if id == 0 { 0 } else { choose(3) };
        let kids = (0..k).map(|_| pick(&built)).collect();
        let node = Node { id, kids, name: label(id) };
        built.push(match kind {
            0 => Ptr::R(Rc::new(node)),
            1 => Ptr::A(Arc::new(node)),
            _ => Ptr::M(My(Rc::new(node))),
        });
    }
    let k = 1 + choose(roots);
    (0..k).map(|_| pick(&built)).collect()
}

fn direct<T: Object>(o: &T) -> Result<T, String> {
    let (mark, tail) = (77u64, String::from("tail"));
    let mut s = Serializer::new();
    s.serialize(o);
    s.serialize(&mark);
    s.serialize(&tail);
    let h = s.drain_handles().iter().map(|h| h.try_clone_to_owned().unwrap()).collect();
    let mut d = Deserializer::new(s.into_vec(), h);
    unsafe {
        let r = d.deserialize().map_err(|e| e.to_string())?;
        ensure!(d.deserialize::<u64>().map_err(|e| e.to_string())? == 77, "what follows was altered");
        ensure!(d.deserialize::<String>().map_err(|e| e.to_string())? == "tail", "what follows was altered");
        Ok(r)
    }
}

#[func]
fn echo(first: Vec<Ref>, a: Ref, b: Ref) -> (Ref, Vec<Ref>, Ref) {
    (a, first, b)
}

fn copy(v: &[Ref]) -> Vec<Ref> {
    v.iter().map(|r| Ref { temporary: r.temporary, to: r.to.share() }).collect()
}

// ---- pointees of all kinds ----

trait Pointee: Object + 'static {
    fn make(i: u8) -> Self;
    fn is(&self, i: u8) -> bool;
}
macro_rules! pointee {
    ($($t:ty: $i:ident $make:expr, $x:ident $is:expr;)*) => {$(
        impl Pointee for $t {
            fn make($i: u8) -> Self { $make }
            fn is(&self, $i: u8) -> bool { let $x = self; $is }
        }
    )*};
}
pointee! {
    u8: i i, x *x == i;
    (): _i (), _x true;
    [u64; 0]: _i [], _x true;
    u128: i (i as u128) << 99, x *x == (i as u128) << 99;
    String: i format!("s{i}"), x *x == format!("s{i}");
    Box<u8>: i Box::new(i), x **x == i;
    Vec<u16>: i vec![i as u16; 5], x *x == vec![i as u16; 5];
    File: i mc::files::dup(i as usize), x mc::files::same(std::os::fd::AsRawFd::as_raw_fd(x), i as usize).is_ok();
    Rc<u8>: i Rc::new(i), x **x == i;
    Arc<Rc<String>>: i Arc::new(Rc::new(format!("{i}"))), x ***x == format!("{i}");
    (Rc<u8>, Arc<u8>): i (Rc::new(i), Arc::new(i + 100)), x *x.0 == i && *x.1 == i + 100;
    Option<Rc<String>>: i Some(Rc::new(format!("{i}"))), x **x.as_ref().unwrap() == format!("{i}");
}

/// All ways in which four pointers may share, in places of different kinds.
fn partition<T: Pointee>(v: &mut Vec<Scenario>) {
    let name = std::any::type_name::<T>();
    macro_rules! with {
        ($p:ident, $label:expr) => {
            v.push(Scenario::new(format!("pointee/{}<{name}>", $label), 0, || {
                mc::files::warm();
                let mut class = [0usize; 4];
                let mut k = 1;
                for i in 1..4 {
                    class[i] = choose(k + 1);
                    k = k.max(class[i] + 1);
                }
                let all: Vec<$p<T>> = (0..k).map(|i| $p::new(T::make(i as u8))).collect();
                let p = |i: usize| all[class[i]].clone();
                let inner = $p::new(p(3));
                let o = (p(0), vec![p(1)], (5u16, Some(p(2))), Box::new(p(3)), [inner.clone(), inner]);
                let r = direct(&o)?;
                let got = [&r.0, &r.1[0], r.2 .1.as_ref().unwrap(), &*r.3];
                for i in 0..4 {
                    ensure!(got[i].is(class[i] as u8), "a pointee was altered");
                    for j in 0..i {
                        ensure!($p::ptr_eq(got[i], got[j]) == (class[i] == class[j]), "sharing altered");
                    }
                    ensure!($p::strong_count(got[i]) == class.iter().filter(|c| **c == class[i]).count() + (class[i] == class[3]) as usize, "references to a pointee were leaked or lost");
                }
                ensure!($p::ptr_eq(&r.4[0], &r.4[1]), "pointers to a pointer no longer shared");
                ensure!($p::ptr_eq(&*r.4[0], got[3]), "a nested pointer no longer shared");
                Ok(format!("{class:?}"))
            }));
        };
    }
    with!(Rc, "Rc");
    with!(Arc, "Arc");
}

/// Pointers some of which exist only while they are serialized, so that others reuse their addresses.
enum Made {
    Kept(Rc<String>),
    /// One, two or three pointers, of which the first two share; the last is kept.
    Fresh(usize, Rc<String>, usize),
    Got(Vec<Rc<String>>),
}
unsafe impl NonTrivialObject for Made {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        match self {
            Made::Kept(p) => {
                s.serialize_temporary(1usize);
                s.serialize(p);
            }
            Made::Fresh(n, kept, i) => {
                s.serialize_temporary(*n);
                let f = Rc::new(format!("fresh {i}"));
                match n {
                    1 => s.serialize_temporary(f),
                    2 => s.serialize_temporary((f.clone(), f)),
                    _ => s.serialize_temporary((f.clone(), f, kept.clone())),
                }
            }
            Made::Got(_) => unreachable!(),
        }
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> IoResult<Self> {
        let n = d.deserialize::<usize>()?;
        Ok(Made::Got((0..n).map(|_| d.deserialize()).collect::<IoResult<_>>()?))
    }
}

fn fresh() -> Result<String, String> {
    let kept: Vec<Rc<String>> = (0..2).map(|i| Rc::new(format!("kept {i}"))).collect();
    let n = 1 + choose(4);
    // (number of pointers, which one is kept)
    let plan: Vec<(usize, usize)> = (0..n).map(|_| [(0, 0), (0, 1), (1, 0), (2, 0), (3, 0), (3, 1)][choose(6)]).collect();
    let o: Vec<Made> = plan
        .iter()
        .enumerate()
        .map(|(i, (k, j))| if *k == 0 { Made::Kept(kept[*j].clone()) } else { Made::Fresh(*k, kept[*j].clone(), i) })
        .collect();
    let r = direct(&o)?;
    ensure!(r.len() == n, "another number of objects");
    let mut known: [Option<Rc<String>>; 2] = [None, None];
    let mut others: Vec<Rc<String>> = Vec::new();
    for (i, ((k, j), got)) in plan.iter().zip(r).enumerate() {
        let Made::Got(got) = got else { unreachable!() };
        for (l, p) in got.iter().enumerate() {
            let is_kept = *k == 0 || l == 2;
            ensure!(**p == if is_kept { format!("kept {j}") } else { format!("fresh {i}") }, "a pointee was altered, object {i} of {plan:?}");
            if is_kept {
                match &known[*j] {
                    Some(q) => ensure!(Rc::ptr_eq(p, q), "sharing lost, object {i} of {plan:?}"),
                    None if *k == 0 => known[*j] = Some(p.clone()),
                    // What is first met inside of a temporary object is not recognized later
                    None => {}
                }
            }
        }
        if *k >= 1 {
            ensure!(*k == 1 || Rc::ptr_eq(&got[0], &got[1]), "sharing lost, object {i} of {plan:?}");
            ensure!(others.iter().all(|q| !Rc::ptr_eq(q, &got[0])), "different allocations became one, object {i} of {plan:?}");
            others.push(got[0].clone());
        }
    }
    Ok(format!("{plan:?}"))
}

#[derive(crossmist::Object)]
struct Link(Option<(Rc<Link>, Rc<Link>)>, Arc<u32>);

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    // Everything in one serializer
    for n in 1..=if thorough { 4 } else { 3 } {
        for budget in 0..=if n < 4 { 2 } else { 1 } {
            if budget == 2 && !thorough {
                continue;
            }
            v.push(Scenario::new(format!("graph/{n}/{budget}"), budget, move || {
                let roots = if n == 4 { 2 } else { 3 };
                let g = graph(n, roots, 4);
                let k = compare(&g, &direct(&g)?)?;
                Ok(format!("{k}"))
            }));
        }
    }
    // Through channels, twice; objects after it do not depend on it
    v.push(Scenario::new("channel", 0, move || {
        let g = graph(2 + thorough as usize, 2, 4);
        let h = copy(&g);
        let (mut tx, mut rx) = crossmist::channel::<Vec<Ref>>().map_err(|e| e.to_string())?;
        tx.send(&g).map_err(|e| e.to_string())?;
        tx.send(&h).map_err(|e| e.to_string())?;
        let a = rx.recv().map_err(|e| e.to_string())?.ok_or("lost")?;
        let b = rx.recv().map_err(|e| e.to_string())?.ok_or("lost")?;
        compare(&g, &a)?;
        compare(&g, &b)?;
        compare(&a, &b)?;
        let c = crate::pass(&a)?;
        Ok(format!("{}", compare(&a, &c)?))
    }));
    // As arguments and results of a child
    v.push(Scenario::new("child", 0, move || {
        let mut g = graph(2, 1 + thorough as usize, 2);
        let a = graph_ref(&g);
        let b = graph_ref(&g);
        let first = copy(&g);
        let (x, mid, y) = echo.run(copy(&g), copy(&[a]).remove(0), copy(&[b]).remove(0)).map_err(|e| e.to_string())?;
        let mut sent = first;
        let a2 = Ref { temporary: false, to: g[0].to.share() };
        let b2 = Ref { temporary: false, to: g[0].to.share() };
        sent.insert(0, a2);
        sent.push(b2);
        let mut got = vec![x];
        got.extend(mid);
        got.push(y);
        g.clear();
        Ok(format!("{}", compare(&sent, &got)?))
    }));
    v.push(Scenario::new("fresh", 0, fresh));
    // More allocations than 8 or 16 bits can number, and deeper nesting
    for way in 0..4 {
        v.push(Scenario::new(format!("many/{way}"), 0, move || {
            let counts: &[usize] = if thorough { &[127, 128, 255, 256, 257, 32_768, 65_535, 65_536, 65_537, 200_000] } else { &[128, 255, 256, 257, 65_535, 65_536, 65_537] };
            let n = counts[choose(counts.len())];
            let rcs: Vec<Rc<usize>> = (0..n).map(Rc::new).collect();
            let arcs: Vec<Arc<String>> = (0..n).map(|i| Arc::new(i.to_string())).collect();
            // Where the second pointer to each is: in the same order, backwards, right behind, or in another place each
            let at = |i: usize| match way {
                0 | 2 => i,
                1 => n - 1 - i,
                _ => i * 7919 % n,
            };
            let mut o: Vec<(Rc<usize>, Option<Arc<String>>)> = Vec::new();
            for i in 0..n {
                o.push((rcs[i].clone(), (i % 3 != 0).then(|| arcs[i].clone())));
                if way == 2 {
                    o.push((rcs[i].clone(), Some(arcs[i].clone())));
                }
            }
            if way != 2 {
                o.extend((0..n).map(|i| (rcs[at(i)].clone(), Some(arcs[at(i)].clone()))));
            }
            let r = direct(&o)?;
            ensure!(r.len() == o.len(), "another number of pointers");
            let mut seen: Vec<Option<(Rc<usize>, Option<Arc<String>>)>> = vec![None; n];
            let mut addresses = std::collections::HashSet::new();
            for (k, ((a, b), (x, y))) in o.iter().zip(&r).enumerate() {
                ensure!(a == x && b == y, "pointee {k} of {n} altered");
                match &mut seen[**a] {
                    None => {
                        ensure!(addresses.insert(Rc::as_ptr(x) as usize), "different allocations became one");
                        seen[**a] = Some((x.clone(), y.clone()));
                    }
                    Some((p, q)) => {
                        ensure!(Rc::ptr_eq(p, x), "sharing of pointer {k} of {n} lost");
                        if let (Some(q), Some(y)) = (&q, y) {
                            ensure!(Arc::ptr_eq(q, y), "sharing of pointer {k} of {n} lost");
                        }
                        *q = None;
                    }
                }
            }
            Ok(format!("{n}"))
        }));
    }
    v.push(Scenario::new("deep", 0, || {
        let depth = [1, 10, 127, 128, 255, 256, 257, 1000][choose(8)];
        let mut o = Rc::new(Link(None, Arc::new(0)));
        let all: Vec<Arc<u32>> = (0..depth).map(Arc::new).collect();
        for i in 0..depth {
            o = Rc::new(Link(Some((o.clone(), o)), all[(i / 2) as usize].clone()));
        }
        let r = direct(&o)?;
        let (mut a, mut b) = (&o, &r);
        let mut previous: Option<Arc<u32>> = None;
        let mut level = 0;
        while let (Some((x, _)), Some((y, z))) = (&a.0, &b.0) {
            ensure!(Rc::ptr_eq(y, z), "sharing lost at level {level}");
            ensure!(a.1 == b.1, "a pointee at level {level} altered");
            if let Some(p) = previous {
                ensure!(Arc::ptr_eq(&p, &b.1) == (p == b.1), "sharing between levels altered at level {level}");
            }
            previous = Some(b.1.clone());
            (a, b) = (x, y);
            level += 1;
        }
        ensure!(level == depth && b.0.is_none(), "{level} levels instead of {depth}");
        Ok(format!("{depth}"))
    }));
    partition::<u8>(&mut v);
    partition::<()>(&mut v);
    partition::<[u64; 0]>(&mut v);
    partition::<u128>(&mut v);
    partition::<String>(&mut v);
    partition::<Box<u8>>(&mut v);
    partition::<Vec<u16>>(&mut v);
    partition::<File>(&mut v);
    partition::<Rc<u8>>(&mut v);
    partition::<Arc<Rc<String>>>(&mut v);
    partition::<(Rc<u8>, Arc<u8>)>(&mut v);
    partition::<Option<Rc<String>>>(&mut v);
    v
}

fn graph_ref(g: &[Ref]) -> Ref {
    Ref { temporary: false, to: g[0].to.share() }
}
