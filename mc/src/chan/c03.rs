//! C03: file descriptors travel with their message.
use mc::ends::*;
use mc::files::*;
use mc::run::Tier;
use mc::sched::{run, Body};
use mc::util::{fd_flags, pattern};
use mc::{choose, ensure, Scenario};
use crossmist::Object;
use std::fs::File;
use std::os::fd::{AsRawFd, OwnedFd};
use std::rc::Rc;
use std::sync::Arc;

const P: usize = 16383;

#[derive(Object)]
pub struct Bag {
    pub data: Vec<u8>,
    pub files: Vec<File>,
}

pub fn check_bag(x: &Bag, ids: &[usize], data: &[u8]) -> Result<(), String> {
    ensure!(x.data == data, "data of an object with {} handles altered", ids.len());
    ensure!(x.files.len() == ids.len(), "{} handles received instead of {}", x.files.len(), ids.len());
    for (k, f) in x.files.iter().enumerate() {
        same(f.as_raw_fd(), ids[k]).map_err(|e| format!("handle {k} of {}: {e}", ids.len()))?;
        ensure!(fd_flags(f.as_raw_fd()) == libc::FD_CLOEXEC, "received handle {k} is not close-on-exec");
    }
    Ok(())
}

/// What the sender holds must be untouched.
pub fn check_kept(b: &Bag, ids: &[usize]) -> Result<(), String> {
    for (f, i) in b.files.iter().zip(ids) {
        same(f.as_raw_fd(), *i).map_err(|e| format!("sender's own handle: {e}"))?;
        ensure!(fd_flags(f.as_raw_fd()) == libc::FD_CLOEXEC, "flags of the sender's handle changed");
    }
    Ok(())
}

fn transfer(be: (Be, Be), n: usize, len: usize) -> Result<(), String> {
    // The order in which the pool is used varies with n, so that a prefix is never right by accident
    let ids: Vec<usize> = (0..n).map(|k| (k * 7 + n) % POOL).collect();
    let bag = Bag { data: pattern(n as u32, len), files: ids.iter().map(|i| dup(*i)).collect() };
    let tail = Bag { data: vec![1], files: vec![dup((n + 3) % POOL)] };
    mc::sys::controlled(|| {
        let (mut tx, mut rx) = channel::<Bag>(be, 0);
        tx.send(&bag).map_err(|e| format!("send of {n} handles, {len} bytes: {e}"))?;
        tx.send(&tail).map_err(|e| format!("send: {e}"))?;
        let x = rx.recv().map_err(|e| format!("recv of {n} handles, {len} bytes: {e}"))?.ok_or("object lost")?;
        check_bag(&x, &ids, &bag.data)?;
        check_kept(&bag, &ids)?;
        let y = rx.recv().map_err(|e| format!("recv: {e}"))?.ok_or("object lost")?;
        check_bag(&y, &[(n + 3) % POOL], &[1])?;
        Ok(())
    })
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    // Every number of handles, with and without much data
    let max = if thorough { 1100 } else { 530 };
    let lens: &[usize] = if thorough { &[0, 1, P - 16, P - 8, 2 * P + 100, 5 * P] } else { &[0, 2 * P + 100] };
    for be in BE_PAIRS {
        for &len in lens {
            for lo in (0..max).step_by(64) {
                v.push(Scenario::new(format!("count/{be:?}/{len}/{lo}"), 0, move || {
                    let n = lo + choose(64.min(max - lo));
                    transfer(be, n, len)?;
                    Ok(format!("{n}"))
                }));
            }
        }
        // Every amount of data around a packet boundary with handles around their boundary
        for n in [1usize, 252, 253, 254, 506, 507] {
            v.push(Scenario::new(format!("boundary/{be:?}/{n}"), 0, move || {
                let base = [P, 2 * P][choose(2)];
                let len = base - 24 + choose(40);
                transfer(be, n, len)?;
                Ok(format!("{n}/{len}"))
            }));
        }
        // Under every schedule, with room for one packet
        for n in [1usize, 253, 254, 300, 507] {
            for len in [0usize, 100, P + 5, 3 * P] {
                let budget = if thorough { 3 } else { 1 };
                v.push(Scenario::new(format!("sched/{be:?}/{n}/{len}"), budget, move || {
                    let ids: Vec<usize> = (0..n).map(|k| (k * 5 + len) % POOL).collect();
                    let bag = Bag { data: pattern(n as u32, len), files: ids.iter().map(|i| dup(*i)).collect() };
                    let tail = Bag { data: vec![1], files: vec![dup((n + 3) % POOL)] };
                    let (mut tx, mut rx) = channel::<Bag>(be, TIGHT);
                    let (bag, tail, ids) = (&bag, &tail, &ids);
                    let a: Body = Box::new(move || {
                        tx.send(bag).map_err(|e| format!("send: {e}"))?;
                        tx.send(tail).map_err(|e| format!("send: {e}"))?;
                        check_kept(bag, ids)
                    });
                    let b: Body = Box::new(move || {
                        let x = rx.recv().map_err(|e| format!("recv: {e}"))?.ok_or("object lost")?;
                        let x = mc::sys::uncontrolled(|| check_bag(&x, ids, &bag.data).map(|()| drop(x)));
                        x?;
                        let y = rx.recv().map_err(|e| format!("recv: {e}"))?.ok_or("object lost")?;
                        check_bag(&y, &[(n + 3) % POOL], &[1])
                    });
                    run(vec![("sender", a), ("receiver", b)])?;
                    Ok("delivered".into())
                }));
            }
        }
        // Handles in different places and of different kinds
        v.push(Scenario::new(format!("shape/{be:?}"), 0, move || shapes(be, choose(SHAPES))));
    }
    v
}

const SHAPES: usize = 12;

#[derive(Object)]
enum Item {
    None,
    One(File),
    Named { a: u16, f: File, b: Vec<u8>, g: OwnedFd },
}

#[derive(Object)]
struct Deep<T: Object> {
    head: Option<File>,
    x: u8,
    inner: T,
    tail: Box<File>,
}

fn shapes(be: (Be, Be), shape: usize) -> Result<String, String> {
    macro_rules! go {
        ($t:ty, $v:expr, |$x:ident| $($fds:tt)*) => {{
            let value: $t = $v;
            let got = mc::sys::controlled(|| {
                let (mut tx, mut rx) = channel::<$t>(be, 0);
                tx.send(&value).map_err(|e| format!("send: {e}"))?;
                tx.send(&value).map_err(|e| format!("send: {e}"))?;
                drop(tx);
                let a = rx.recv().map_err(|e| format!("recv: {e}"))?.ok_or("object lost")?;
                let b = rx.recv().map_err(|e| format!("recv: {e}"))?.ok_or("object lost")?;
                ensure!(rx.recv().map_err(|e| format!("recv: {e}"))?.is_none(), "object received that was never sent");
                Ok::<_, String>([a, b])
            })?;
            let mut all: Vec<i32> = Vec::new();
            for $x in got.iter().chain([&value]) {
                let fds: Vec<(i32, usize)> = $($fds)*;
                for (k, (fd, id)) in fds.iter().enumerate() {
                    same(*fd, *id).map_err(|e| format!("shape {shape}, handle {k}: {e}"))?;
                    ensure!(fd_flags(*fd) == libc::FD_CLOEXEC, "shape {shape}, handle {k} is not close-on-exec");
                    all.push(*fd);
                }
            }
            let n = all.len();
            all.sort();
            all.dedup();
            ensure!(all.len() == n, "one descriptor owned twice in shape {shape}");
        }};
    }
    match shape {
        0 => go!(File, dup(3), |x| vec![(x.as_raw_fd(), 3)]),
        1 => go!((File, u64, File), (dup(5), 77, dup(4)), |x| {
            ensure!(x.1 == 77, "data altered");
            vec![(x.0.as_raw_fd(), 5), (x.2.as_raw_fd(), 4)]
        }),
        2 => go!(Vec<Option<File>>, vec![None, Some(dup(9)), None, Some(dup(2)), Some(dup(9))], |x| {
            ensure!(x.len() == 5 && x[0].is_none() && x[2].is_none(), "data altered");
            vec![
                (x[1].as_ref().ok_or("lost")?.as_raw_fd(), 9),
                (x[3].as_ref().ok_or("lost")?.as_raw_fd(), 2),
                (x[4].as_ref().ok_or("lost")?.as_raw_fd(), 9),
            ]
        }),
        3 => go!([Item; 4], [Item::One(dup(1)), Item::None, Item::Named { a: 7, f: dup(6), b: vec![1, 2], g: dup(8).into() }, Item::One(dup(0))], |x| {
            match x {
                [Item::One(a), Item::None, Item::Named { a: 7, f, b, g }, Item::One(c)] if b == &[1, 2] => {
                    vec![(a.as_raw_fd(), 1), (f.as_raw_fd(), 6), (g.as_raw_fd(), 8), (c.as_raw_fd(), 0)]
                }
                _ => return Err("data altered".into()),
            }
        }),
        4 => go!(Deep<Deep<(File, Vec<u8>)>>, Deep {
            head: Some(dup(1)),
            x: 5,
            inner: Deep { head: None, x: 6, inner: (dup(2), vec![3; 20000]), tail: Box::new(dup(3)) },
            tail: Box::new(dup(4)),
        }, |x| {
            ensure!(x.x == 5 && x.inner.x == 6 && x.inner.head.is_none() && x.inner.inner.1 == vec![3; 20000], "data altered");
            vec![
                (x.head.as_ref().ok_or("lost")?.as_raw_fd(), 1),
                (x.inner.inner.0.as_raw_fd(), 2),
                (x.inner.tail.as_raw_fd(), 3),
                (x.tail.as_raw_fd(), 4),
            ]
        }),
        5 => {
            let f = Arc::new(dup(7));
            go!((Arc<File>, File, Arc<File>), (f.clone(), dup(8), f), |x| {
                ensure!(Arc::ptr_eq(&x.0, &x.2), "sharing lost");
                vec![(x.0.as_raw_fd(), 7), (x.1.as_raw_fd(), 8)]
            })
        }
        6 => {
            let f = Rc::new((dup(7), dup(1)));
            go!(Vec<Rc<(File, File)>>, vec![f.clone(), Rc::new((dup(3), dup(4))), f], |x| {
                ensure!(x.len() == 3 && Rc::ptr_eq(&x[0], &x[2]) && !Rc::ptr_eq(&x[0], &x[1]), "sharing altered");
                vec![(x[0].0.as_raw_fd(), 7), (x[0].1.as_raw_fd(), 1), (x[1].0.as_raw_fd(), 3), (x[1].1.as_raw_fd(), 4)]
            })
        }
        7 => go!(std::collections::BTreeMap<u8, File>, (0..9u8).rev().map(|k| (k, dup(20 + k as usize))).collect(), |x| {
            ensure!(x.len() == 9, "entries lost");
            x.iter().map(|(k, f)| (f.as_raw_fd(), 20 + *k as usize)).collect()
        }),
        8 => go!(std::collections::HashMap<u8, File>, (0..40u8).map(|k| (k, dup(20 + k as usize))).collect(), |x| {
            ensure!(x.len() == 40, "entries lost");
            x.iter().map(|(k, f)| (f.as_raw_fd(), 20 + *k as usize)).collect()
        }),
        9 => go!(Result<(File, [File; 3]), File>, Ok((dup(11), [dup(14), dup(13), dup(12)])), |x| match x {
            Ok((a, b)) => {
                let mut r = vec![(a.as_raw_fd(), 11)];
                r.extend(b.iter().enumerate().map(|(i, f)| (f.as_raw_fd(), 14 - i)));
                r
            }
            Err(_) => return Err("data altered".into()),
        }),
        10 => go!(std::collections::VecDeque<Box<[File]>>, (0..6usize).map(|k| (0..k).map(|j| dup(30 + k * 6 + j)).collect::<Vec<_>>().into_boxed_slice()).collect(), |x| {
            ensure!(x.len() == 6, "entries lost");
            x.iter().enumerate().flat_map(|(k, b)| b.iter().enumerate().map(move |(j, f)| (f.as_raw_fd(), 30 + k * 6 + j))).collect()
        }),
        11 => go!(Box<[(async_fs::File, std::collections::LinkedList<File>)]>, (0..4usize).map(|k| (dup(50 + k).into(), (0..k).map(|j| dup(60 + k * 4 + j)).collect())).collect::<Vec<_>>().into_boxed_slice(), |x| {
            ensure!(x.len() == 4, "entries lost");
            let mut r = Vec::new();
            for (k, (f, l)) in x.iter().enumerate() {
                ensure!(l.len() == k, "entries lost");
                r.push((f.as_raw_fd(), 50 + k));
                r.extend(l.iter().enumerate().map(|(j, f)| (f.as_raw_fd(), 60 + k * 4 + j)));
            }
            r
        }),
        _ => unreachable!(),
    }
    Ok(format!("shape {shape}"))
}
