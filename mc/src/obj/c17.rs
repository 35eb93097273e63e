//! C17: delayed objects in all small arrangements.
use crate::pass;
use crossmist::{func, Delayed, Deserializer, NonTrivialObject, Serializer};
use mc::files::{dup, same, warm};
use mc::run::Tier;
use mc::util::{fd_flags, open_fds};
use mc::{choose, ensure, Scenario};
use std::fs::File;
use std::io::Result as IoResult;
use std::os::fd::AsRawFd;
use std::sync::Arc;

pub enum Item {
    B(u8),
    S(String),
    F(File),
    Shared(Arc<String>),
    SharedFile(Arc<File>),
    D(Delayed<Vec<Item>>),
}
use Item::*;

unsafe impl NonTrivialObject for Item {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        macro_rules! put {
            ($($p:ident $n:expr),*) => { match self { $($p(x) => { s.serialize_temporary($n as u8); s.serialize(x); })* } };
        }
        put!(B 0, S 1, F 2, Shared 3, SharedFile 4, D 5)
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> IoResult<Self> {
        Ok(match d.deserialize::<u8>()? {
            0 => B(d.deserialize()?),
            1 => S(d.deserialize()?),
            2 => F(d.deserialize()?),
            3 => Shared(d.deserialize()?),
            4 => SharedFile(d.deserialize()?),
            _ => D(d.deserialize()?),
        })
    }
}

/// What the items were built from.
#[derive(Clone, Debug)]
enum M {
    B(u8),
    S(String),
    F(usize),
    Shared(usize),
    SharedFile(usize),
    D(Vec<M>),
}

/// `shape`: the number of objects at most, at each level of nesting.
fn model(shape: &[usize], n: &mut usize) -> Vec<M> {
    let k = 1 + choose(shape[0]);
    (0..k)
        .map(|_| {
            *n += 1;
            match choose(5 + 2 + (shape.len() > 1) as usize) {
                0 => M::B(*n as u8),
                1 => M::S(format!("{n}{}", "-".repeat(*n))),
                2 => M::F(*n + 10),
                3 => M::Shared(0),
                4 => M::SharedFile(0),
                5 => M::Shared(1),
                6 => M::SharedFile(1),
                _ => M::D(model(&shape[1..], n)),
            }
        })
        .collect()
}

struct Shares {
    strings: [Arc<String>; 2],
    files: [Arc<File>; 2],
}

fn build(m: &[M], s: &Shares) -> Vec<Item> {
    m.iter()
        .map(|m| match m {
            M::B(x) => B(*x),
            M::S(x) => S(x.clone()),
            M::F(i) => F(dup(*i)),
            M::Shared(i) => Shared(s.strings[*i].clone()),
            M::SharedFile(i) => SharedFile(s.files[*i].clone()),
            M::D(m) => D(Delayed::new(build(m, s))),
        })
        .collect()
}

fn shares() -> Shares {
    Shares { strings: [Arc::new("one".into()), Arc::new("two".into())], files: [Arc::new(dup(1)), Arc::new(dup(2))] }
}

/// Unwrap the delayed objects in either order, or drop one of them, and compare everything.
fn check(m: &[M], items: Vec<Item>, backwards: bool, skip: &mut usize) -> Result<(), String> {
    ensure!(m.len() == items.len(), "another number of objects");
    let mut delayed = Vec::new();
    let mut strings: [Option<Arc<String>>; 2] = [None, None];
    let mut files: [Option<Arc<File>>; 2] = [None, None];
    let mut kept = Vec::new();
    let open = |f: &File, i: usize| -> Result<(), String> {
        same(f.as_raw_fd(), i).map_err(|e| format!("a handle: {e}"))?;
        ensure!(fd_flags(f.as_raw_fd()) == libc::FD_CLOEXEC, "a handle is not close-on-exec");
        Ok(())
    };
    for (m, i) in m.iter().zip(items) {
        match (m, i) {
            (M::B(a), B(b)) => ensure!(*a == b, "an object altered"),
            (M::S(a), S(b)) => ensure!(*a == b, "an object altered"),
            (M::F(i), F(f)) => {
                open(&f, *i)?;
                kept.push(f);
            }
            (M::Shared(i), Shared(a)) => {
                ensure!(*a == ["one", "two"][*i], "a shared object altered");
                if let Some(b) = &strings[*i] {
                    ensure!(Arc::ptr_eq(&a, b), "sharing lost");
                }
                strings[*i] = Some(a);
            }
            (M::SharedFile(i), SharedFile(a)) => {
                open(&a, *i + 1)?;
                if let Some(b) = &files[*i] {
                    ensure!(Arc::ptr_eq(&a, b), "sharing lost");
                }
                files[*i] = Some(a);
            }
            (M::D(m), D(d)) => delayed.push((m, d)),
            _ => return Err("an object took the place of another".into()),
        }
    }
    if let (Some(a), Some(b)) = (&strings[0], &strings[1]) {
        ensure!(!Arc::ptr_eq(a, b), "different objects shared");
    }
    if let (Some(a), Some(b)) = (&files[0], &files[1]) {
        ensure!(!Arc::ptr_eq(a, b), "different files shared");
    }
    if backwards {
        delayed.reverse();
    }
    for (m, d) in delayed {
        if *skip == 0 {
            drop(d);
        } else {
            *skip -= 1;
            check(m, d.deserialize().map_err(|e| format!("deserialize: {e}"))?, backwards, skip)?;
        }
    }
    Ok(())
}

fn direct(o: &Vec<Item>) -> Result<Vec<Item>, String> {
    let tail = String::from("tail");
    let mut s = Serializer::new();
    s.serialize(o);
    s.serialize(&tail);
    let h = s.drain_handles().iter().map(|h| h.try_clone_to_owned().unwrap()).collect();
    let mut d = Deserializer::new(s.into_vec(), h);
    unsafe {
        let r = d.deserialize().map_err(|e| e.to_string())?;
        ensure!(d.deserialize::<String>().map_err(|e| e.to_string())? == "tail", "what follows was altered");
        Ok(r)
    }
}

fn unwrap(items: Vec<Item>) -> Vec<Item> {
    let mut plain = Vec::new();
    for i in items {
        plain.push(match i {
            D(d) => {
                let inner = unwrap(d.deserialize().unwrap());
                D(Delayed::new(inner))
            }
            i => i,
        });
    }
    plain
}

#[func]
fn rewrap(items: Vec<Item>, d: Delayed<Vec<Item>>) -> (Vec<Item>, Vec<Item>) {
    let d = unwrap(d.deserialize().unwrap());
    (unwrap(items), d)
}

type Batch = Vec<(Delayed<(File, usize, String)>, u16, Option<File>)>;

#[func]
fn back_and_forth(b: Batch) -> Batch {
    b.into_iter().map(|(d, n, f)| (Delayed::new(d.deserialize().unwrap()), n, f)).collect()
}

#[func]
fn large_back_and_forth(a: Delayed<Vec<u8>>, b: Delayed<Vec<String>>) -> (u8, Delayed<Vec<u8>>, Delayed<Vec<String>>, u8) {
    (1, Delayed::new(a.deserialize().unwrap()), Delayed::new(b.deserialize().unwrap()), 7)
}

#[func(tokio(flavor = "current_thread"))]
async fn in_runtime(f: tokio::fs::File, d: Delayed<(tokio::fs::File, u8)>, s: String) -> (tokio::fs::File, File, u8, String) {
    use std::os::fd::AsFd;
    let (g, n) = d.deserialize().unwrap();
    let g = File::from(g.as_fd().try_clone_to_owned().unwrap());
    (f, g, n, s)
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let shapes: &[&'static [usize]] = if thorough {
        &[&[3], &[2, 2], &[3, 1], &[2, 2, 1], &[2, 1, 2], &[1, 2, 2], &[2, 1, 1, 1], &[1, 1, 1, 1, 1]]
    } else {
        &[&[3], &[2, 2], &[1, 1, 1, 1]]
    };
    for &shape in shapes {
        for carrier in 0..2 {
            for way in 0..4 {
                v.push(Scenario::new(format!("{}/{shape:?}/{way}", ["direct", "channel"][carrier]), 0, move || {
                    warm();
                    let m = model(shape, &mut 0);
                    let s = shares();
                    let o = build(&m, &s);
                    let before = open_fds().len();
                    let r = if carrier == 0 { direct(&o)? } else { pass(&o)? };
                    // The sender's are not needed any more
                    let mut skip = if way >= 2 { way - 2 } else { usize::MAX };
                    check(&m, r, way & 1 == 1, &mut skip)?;
                    ensure!(open_fds().len() == before, "handles leaked");
                    Ok(format!("{m:?}"))
                }));
            }
        }
    }
    // Many of them, and large ones
    for carrier in 0..3 {
        v.push(Scenario::new(format!("many/{carrier}"), 0, move || {
            warm();
            let n = [64, 127, 128, 253, 254, 255, 256, 257][choose(8)];
            let backwards = choose(2) == 1;
            let before = open_fds().len();
            let o: Vec<(Delayed<(File, usize, String)>, u16, Option<File>)> = (0..n)
                .map(|i| (Delayed::new((dup(i % 7), i, format!("s{i}"))), i as u16, (i % 5 == 0).then(|| dup(i % 3))))
                .collect();
            let r: Batch = match carrier {
                0 => {
                    let mut s = Serializer::new();
                    s.serialize(&o);
                    let h = s.drain_handles().iter().map(|h| h.try_clone_to_owned().unwrap()).collect();
                    let bytes = s.into_vec();
                    drop(o);
                    unsafe { Deserializer::new(bytes, h).deserialize().map_err(|e| e.to_string())? }
                }
                1 => {
                    let r = pass(&o)?;
                    drop(o);
                    r
                }
                _ => back_and_forth.run(o).map_err(|e| format!("running a child: {e}"))?,
            };
            ensure!(r.len() == n, "another number of objects");
            let mut all: Vec<_> = r.into_iter().enumerate().collect();
            if backwards {
                all.reverse();
            }
            for (i, (d, k, f)) in all {
                ensure!(k == i as u16 && f.is_some() == (i % 5 == 0), "object {i} of {n} altered");
                if let Some(f) = f {
                    same(f.as_raw_fd(), i % 3).map_err(|e| format!("the handle of object {i} of {n}: {e}"))?;
                }
                let (f, k, s) = d.deserialize().map_err(|e| format!("deserialize: {e}"))?;
                same(f.as_raw_fd(), i % 7).map_err(|e| format!("the handle of delayed object {i} of {n}: {e}"))?;
                ensure!(k == i && s == format!("s{i}"), "delayed object {i} of {n} altered");
            }
            ensure!(open_fds().len() == before, "handles leaked");
            Ok(format!("{n}"))
        }));
        v.push(Scenario::new(format!("large/{carrier}"), 0, move || {
            let n = [255, 256, 65_535, 65_536, 65_537, 100_000][choose(6)];
            let o = (1u8, Delayed::new(mc::util::pattern(n as u32, n)), Delayed::new(vec![n.to_string(); n / 64]), 7u8);
            let r = match carrier {
                0 => {
                    let mut s = Serializer::new();
                    s.serialize(&o);
                    unsafe { Deserializer::new(s.into_vec(), Vec::new()).deserialize().map_err(|e| e.to_string())? }
                }
                1 => std::thread::scope(|t| -> Result<(u8, Delayed<Vec<u8>>, Delayed<Vec<String>>, u8), String> {
                    let (mut tx, mut rx) = crossmist::channel().map_err(|e| e.to_string())?;
                    let h = t.spawn(move || tx.send(&o).map_err(|e| e.to_string()));
                    let r = rx.recv();
                    h.join().unwrap()?;
                    r.map_err(|e| e.to_string())?.ok_or("object lost".to_string())
                })?,
                _ => large_back_and_forth.run(o.1, o.2).map_err(|e| format!("running a child: {e}"))?,
            };
            ensure!(r.0 == 1 && r.3 == 7, "objects around are altered");
            ensure!(r.2.deserialize().map_err(|e| e.to_string())? == vec![n.to_string(); n / 64], "a delayed object altered");
            ensure!(r.1.deserialize().map_err(|e| e.to_string())? == mc::util::pattern(n as u32, n), "a delayed object of {n} bytes altered");
            Ok(format!("{n}"))
        }));
    }
    for half in 0..2 {
        v.push(Scenario::new(format!("child/{half}"), 0, move || {
            warm();
            let shape: &[usize] = if thorough { &[2, 1] } else { &[1, 1] };
            let mut n = 0;
            let a = if half == 0 { model(shape, &mut n) } else { model(&[1, 1], &mut n) };
            let b = if half == 0 { model(&[1, 1], &mut n) } else { model(shape, &mut n) };
            let s = shares();
            let before = open_fds().len();
            let (x, y) = rewrap.run(build(&a, &s), Delayed::new(build(&b, &s))).map_err(|e| format!("running a child: {e}"))?;
            let mut all = usize::MAX;
            check(&a, x, false, &mut all)?;
            check(&b, y, true, &mut all)?;
            ensure!(open_fds().len() == before, "handles leaked");
            Ok(format!("{a:?} {b:?}"))
        }));
    }
    v.push(Scenario::new("runtime", 0, || {
        warm();
        let n = choose(2);
        let f = |i: usize| tokio::fs::File::from_std(dup(i));
        let (a, b, n2, s) = tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .build()
            .unwrap()
            .block_on(async { in_runtime.run_tokio(f(1), Delayed::new((f(2), n as u8)), "text".into()).await })
            .map_err(|e| format!("running a child: {e}"))?;
        same(a.as_raw_fd(), 1)?;
        same(b.as_raw_fd(), 2)?;
        ensure!(n2 == n as u8 && s == "text", "arguments altered");
        Ok(format!("{n}"))
    }));
    v
}
