//! C14: the descriptors of a child.
use crate::{clean, tokio, warm};
use crossmist::{func, Delayed, Object};
use mc::run::Tier;
use mc::sched::{self, Body};
use mc::util::{fd_flags, ino, memfd, open_fds};
use mc::{choose, ensure, sys, Scenario};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{Seek, SeekFrom};
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd, RawFd};
use std::rc::Rc;

/// Something with at most one descriptor in it.
#[derive(Object)]
pub enum H {
    None(String),
    File(File),
    Owned(OwnedFd),
    Late(Delayed<File>),
    Late2(Delayed<Delayed<(u8, File)>>),
    Shared(Rc<File>),
    Boxed(Box<(Vec<u8>, Option<File>)>),
    Tx(crossmist::Sender<u8>),
    Rx(crossmist::Receiver<u8>),
    Both(crossmist::Duplex<u8, u8>),
}
use H::*;

/// Number, flags, device and inode of every descriptor that is not an anonymous inode (executors
/// have those), then the numbers of the handles passed.
#[derive(Object, Clone, Debug)]
pub struct Report {
    table: Vec<(i32, i32, u64, u64)>,
    anonymous: usize,
    handles: Vec<(i32, bool)>,
}

fn table() -> (Vec<(i32, i32, u64, u64)>, usize) {
    let mut t = Vec::new();
    let mut anonymous = 0;
    for (fd, (dev, i, _)) in open_fds() {
        let link = std::fs::read_link(format!("/proc/self/fd/{fd}")).unwrap_or_default();
        if link.to_string_lossy().starts_with("anon_inode:") {
            anonymous += 1;
        } else {
            t.push((fd, fd_flags(fd), dev, i));
        }
    }
    (t, anonymous)
}

/// Is the descriptor usable? Files get their offset moved to the index of the handle.
fn touch(f: &File, i: usize) -> (i32, bool) {
    let mut f2 = f;
    (f.as_raw_fd(), f2.seek(SeekFrom::Start(i as u64 + 1)).is_ok())
}

fn inspect(hs: Vec<H>) -> Report {
    let (table, anonymous) = table();
    let handles = hs
        .into_iter()
        .enumerate()
        .filter_map(|(i, h)| match h {
            None(s) => {
                assert_eq!(s, "none");
                Option::None
            }
            File(f) => Some(touch(&f, i)),
            Owned(f) => Some(touch(&f.into(), i)),
            Late(d) => Some(touch(&d.deserialize().unwrap(), i)),
            Late2(d) => Some(touch(&d.deserialize().unwrap().deserialize().unwrap().1, i)),
            Shared(f) => {
                let r = touch(&f, i);
                std::mem::forget(f);
                Some(r)
            }
            Boxed(b) => b.1.as_ref().map(|f| touch(f, i)),
            Tx(mut t) => Some((t.as_raw_fd(), t.send(&(i as u8)).is_ok())),
            Rx(mut r) => Some((r.as_raw_fd(), r.recv().ok().flatten() == Some(i as u8))),
            Both(mut d) => Some((d.as_raw_fd(), d.request(&(i as u8)).ok() == Some(i as u8))),
        })
        .collect();
    Report { table, anonymous, handles }
}

#[func]
fn report(hs: Vec<H>, _pad: Vec<u8>) -> Report {
    inspect(hs)
}
#[func(tokio(flavor = "current_thread"))]
async fn report_tokio(hs: Vec<H>, _pad: Vec<u8>) -> Report {
    inspect(hs)
}
#[func(smol)]
async fn report_smol(hs: Vec<H>, _pad: Vec<u8>) -> Report {
    inspect(hs)
}
/// A child passing all its handles on to a child of its own, which has nothing else.
#[func]
fn relay(hs: Vec<H>, pad: Vec<u8>) -> (Vec<(i32, i32, u64, u64)>, Result<Report, String>, Vec<(i32, i32, u64, u64)>) {
    let _decoy = memfd(b"decoy");
    let hs = hs
        .into_iter()
        .map(|h| match h {
            // What was received delayed cannot be sent as it is
            Late(d) => Late(Delayed::new(d.deserialize().unwrap())),
            Late2(d) => Late2(Delayed::new(Delayed::new(d.deserialize().unwrap().deserialize().unwrap()))),
            h => h,
        })
        .collect();
    let before = table().0;
    let c = report.spawn(hs, pad);
    let r = c.and_then(|c| c.join()).map_err(|e| e.to_string());
    (before, r, table().0)
}

/// A process without (some of) the standard streams: handles and channels get their numbers.
#[func]
fn streamless(mask: u8, n: usize, high_first: bool) -> Result<(Report, Vec<(u64, u64)>), String> {
    for fd in 0..3 {
        if mask & 1 << fd != 0 {
            unsafe { libc::close(fd) };
        }
    }
    let mut fs: Vec<File> = (0..n).map(|_| memfd(&[0; 1000]).into()).collect();
    if high_first {
        fs.reverse();
    }
    let want = fs.iter().map(|f| ino(f.as_raw_fd())).collect();
    let hs = fs.into_iter().map(File).collect();
    let r = report.spawn(hs, vec![]).and_then(|c| c.join()).map_err(|e| e.to_string())?;
    Ok((r, want))
}

/// Descriptors of the harness that children inherit.
fn inherited() -> Vec<i32> {
    open_fds().into_iter().map(|(f, _)| f).filter(|f| fd_flags(*f) & libc::FD_CLOEXEC == 0).collect()
}

/// A handle of the given kind, the expected inode, and what to keep to see whether it is used.
enum Keep {
    Nothing,
    File(File),
    Rx(crossmist::Receiver<u8>),
    Tx(crossmist::Sender<u8>),
    Both(crossmist::Duplex<u8, u8>),
}

fn fresh(decoys: &mut Vec<File>, gap: usize) -> (File, File) {
    for _ in 0..gap {
        decoys.push(memfd(b"decoy").into());
    }
    let f: File = memfd(&[0; 1000]).into();
    let keep = f.try_clone().unwrap();
    (f, keep)
}

const KINDS: usize = 10;

fn make(kind: usize, i: usize, gap: usize, decoys: &mut Vec<File>, last: &mut Option<Rc<File>>) -> (H, Option<(u64, u64)>, Keep) {
    macro_rules! file {
        (|$f:ident| $e:expr) => {{
            let ($f, keep) = fresh(decoys, gap);
            let id = ino($f.as_raw_fd());
            ($e, Some(id), Keep::File(keep))
        }};
    }
    match kind {
        0 => file!(|f| File(f)),
        1 => file!(|f| Owned(f.into())),
        2 => file!(|f| Late(Delayed::new(f))),
        3 => file!(|f| Late2(Delayed::new(Delayed::new((9, f))))),
        4 => {
            // The same file as before, if there was one
            let rc = last.get_or_insert_with(|| Rc::new(fresh(decoys, gap).0)).clone();
            let id = ino(rc.as_raw_fd());
            (Shared(rc), Some(id), Keep::Nothing)
        }
        5 => file!(|f| Boxed(Box::new((vec![1, 2, 3], Some(f))))),
        6 => {
            let (tx, rx) = crossmist::channel::<u8>().unwrap();
            let id = ino(tx.as_raw_fd());
            (Tx(tx), Some(id), Keep::Rx(rx))
        }
        7 => {
            let (mut tx, rx) = crossmist::channel::<u8>().unwrap();
            tx.send(&(i as u8)).unwrap();
            let id = ino(rx.as_raw_fd());
            (Rx(rx), Some(id), Keep::Tx(tx))
        }
        8 => {
            let (mut a, b) = crossmist::duplex::<u8, u8>().unwrap();
            a.send(&(i as u8)).unwrap();
            let id = ino(b.as_raw_fd());
            (Both(b), Some(id), Keep::Both(a))
        }
        _ => (None("none".into()), Option::None, Keep::Nothing),
    }
}

/// Compare what a child saw to what was passed.
fn judge(r: &Report, want: &[Option<(u64, u64)>], inherited: &[i32], strict: bool) -> Result<(), String> {
    let low = inherited.is_empty();
    let want: Vec<(u64, u64)> = want.iter().filter_map(|x| *x).collect();
    ensure!(r.handles.len() == want.len(), "{} handles instead of {}", r.handles.len(), want.len());
    let mut table: BTreeMap<i32, (i32, u64, u64)> = r.table.iter().map(|t| (t.0, (t.1, t.2, t.3))).collect();
    for f in inherited {
        table.remove(f);
    }
    let mut seen: BTreeMap<i32, (u64, u64)> = BTreeMap::new();
    for (i, ((fd, usable), id)) in r.handles.iter().zip(&want).enumerate() {
        ensure!(*usable, "handle {i} is not usable");
        if let Some(s) = seen.get(fd) {
            // Pointers to one object
            ensure!(s == id, "handle {i} has the number of another handle");
            continue;
        }
        if inherited.contains(fd) {
            return Err(format!("handle {i} is a descriptor the child inherited"));
        }
        seen.insert(*fd, *id);
        let Some((flags, dev, i2)) = table.remove(fd) else {
            // Delayed handles keep their number, so every handle must be in the table
            return Err(format!("handle {i} is not among the descriptors the child started with"));
        };
        ensure!((dev, i2) == *id, "handle {i} is another file");
        ensure!(flags & libc::FD_CLOEXEC != 0, "handle {i} is not close-on-exec in the child");
    }
    if low {
        table.retain(|f, _| *f > 2);
        ensure!(table.len() <= 1, "{} descriptors besides those passed instead of one", table.len());
        return Ok(());
    }
    ensure!(table.len() == 1, "{} descriptors besides those passed instead of one: {:?}", table.len(), table.iter().take(5).collect::<Vec<_>>());
    let (fd, (flags, ..)) = table.iter().next().unwrap();
    ensure!(flags & libc::FD_CLOEXEC != 0, "the channel of the child (descriptor {fd}) is not close-on-exec");
    ensure!(!strict || r.anonymous == 0, "the child has {} anonymous descriptors", r.anonymous);
    Ok(())
}

/// Are the handles connected to what they should be?
fn connected(keep: Vec<Keep>) -> Result<(), String> {
    for (i, k) in keep.into_iter().enumerate() {
        match k {
            Keep::Nothing => {}
            Keep::File(mut f) => {
                let pos = f.stream_position().unwrap();
                ensure!(pos == i as u64 + 1, "handle {i}: the child does not share the open file (offset {pos})");
            }
            Keep::Rx(mut r) => {
                ensure!(r.recv().ok().flatten() == Some(i as u8), "handle {i}: another channel");
                ensure!(matches!(r.recv(), Ok(Option::None)), "handle {i}: the channel is still open");
            }
            Keep::Tx(mut t) => ensure!(t.send(&1).is_err(), "handle {i}: the channel is still open"),
            Keep::Both(mut d) => {
                ensure!(d.recv().ok().flatten() == Some(i as u8), "handle {i}: another channel");
                ensure!(matches!(d.recv(), Ok(Option::None)), "handle {i}: the channel is still open");
            }
        }
    }
    Ok(())
}

fn flags_of_all() -> Vec<(i32, i32, (u64, u64, u32))> {
    open_fds().into_iter().filter(|(f, _)| *f < 3000).map(|(f, id)| (f, fd_flags(f), id)).collect()
}

const BACKENDS: [&str; 3] = ["blocking", "tokio", "smol"];

fn go(child: usize, parent: usize, hs: Vec<H>, pad: usize) -> Result<Report, String> {
    let p = vec![3; pad];
    macro_rules! with {
        ($f:ident) => {
            match parent {
                0 => $f.spawn(hs, p).and_then(|c| c.join()),
                1 => tokio(async { $f.spawn_tokio(hs, p).await?.join().await }),
                _ => async_io::block_on(async { $f.spawn_smol(hs, p).await?.join().await }),
            }
        };
    }
    match child {
        0 => with!(report),
        1 => with!(report_tokio),
        _ => with!(report_smol),
    }
    .map_err(|e| format!("spawning or joining failed: {e}"))
}

/// Spawn a child with handles of the given kinds and compare.
fn check(kinds: &[usize], order: usize, gap: usize, decoys: usize, child: usize, parent: usize, pad: usize) -> Result<(), String> {
    let inh = inherited();
    let mut d: Vec<File> = (0..decoys).map(|_| memfd(b"decoy").into()).collect();
    let mut last = Option::None;
    // The order in which descriptors are created, relative to the order in which they are passed
    let n = kinds.len();
    let mut slots: Vec<Option<(H, Option<(u64, u64)>, Keep)>> = (0..n).map(|_| Option::None).collect();
    for j in 0..n {
        let i = match order {
            0 => j,
            1 => n - 1 - j,
            _ => (j + n / 2) % n,
        };
        slots[i] = Some(make(kinds[i], i, gap, &mut d, &mut last));
    }
    drop(last);
    let (mut hs, mut want, mut keep) = (Vec::new(), Vec::new(), Vec::new());
    for (h, w, k) in slots.into_iter().flatten() {
        hs.push(h);
        want.push(w);
        keep.push(k);
    }
    let r = go(child, parent, hs, pad)?;
    judge(&r, &want, &inh, child == 0)?;
    connected(keep)
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    // Every combination of kinds
    for child in 0..3 {
        for parent in 0..3 {
            let most = if thorough { 3 } else { 2 - (child + parent > 0) as usize };
            for n in 0..=most {
                v.push(Scenario::new(format!("kinds/{}/{}/{n}", BACKENDS[child], BACKENDS[parent]), 0, move || {
                    let kinds: Vec<usize> = (0..n).map(|_| choose(KINDS)).collect();
                    let order = if n > 1 { choose(2) } else { 0 };
                    let gap = if n == 2 && !thorough { choose(2) } else { 1 };
                    clean(|| check(&kinds, order, gap, 1, child, parent, 0))?;
                    Ok(format!("{kinds:?} {order} {gap}"))
                }));
            }
        }
    }
    // Many handles
    let mut numbers = vec![3, 7, 16, 64, 252, 253, 254, 255, 300, 506, 507, 600];
    if thorough {
        numbers.extend([4, 5, 6, 8, 15, 17, 31, 32, 33, 63, 65, 127, 128, 129, 251, 256, 505, 508, 509, 759, 760, 1000]);
    }
    for n in numbers {
        v.push(Scenario::new(format!("many/{n}"), 0, move || {
            let order = choose(3);
            let gap = if n < 300 { choose(2) } else { 0 };
            let parent = choose(3);
            let child = if thorough { choose(3) } else { 0 };
            let mixed = choose(2) == 1;
            let pad = [0, 100_000][choose(2)];
            let kinds: Vec<usize> = (0..n).map(|i| if mixed { [0, 9, 2, 1, 5, 4, 0, 3][i % 8] } else { 0 }).collect();
            clean(|| check(&kinds, order, gap, 5, child, parent, pad))?;
            Ok(format!("{order} {gap} {child} {parent} {mixed} {pad}"))
        }));
    }
    // The parent's descriptors keep their numbers, files and flags
    for parent in 0..3usize {
        v.push(Scenario::new(format!("flags/{}", BACKENDS[parent]), 0, move || {
            warm();
            // A descriptor that is not close-on-exec is passed to the child as another one
            let plain = choose(2) == 1;
            let fail = choose(2) == 1;
            let n = choose(4);
            let rcs: Vec<Rc<File>> = (0..n).map(|_| Rc::new(memfd(&[0; 1000]).into())).collect();
            if plain {
                if let Some(f) = rcs.first() {
                    unsafe { libc::fcntl(f.as_raw_fd(), libc::F_SETFD, 0) };
                }
            }
            let _held = rcs.clone();
            let before = flags_of_all();
            let hs: Vec<H> = rcs.iter().cloned().map(Shared).collect();
            if fail {
                sys::set_plan(0, libc::EPIPE, &[sys::Kind::Sendmsg]);
            }
            let r = sys::controlled(|| match parent {
                0 => report.spawn(hs, vec![]).and_then(|c| c.join()),
                1 => tokio(async { report.spawn_tokio(hs, vec![]).await?.join().await }),
                _ => async_io::block_on(async { report.spawn_smol(hs, vec![]).await?.join().await }),
            });
            sys::clear_plan();
            ensure!(r.is_err() == fail, "spawning: {r:?}");
            let after = flags_of_all();
            ensure!(before == after, "the descriptors of the parent have changed: {:?} {:?}",
                before.iter().filter(|x| !after.contains(x)).take(5).collect::<Vec<_>>(),
                after.iter().filter(|x| !before.contains(x)).take(5).collect::<Vec<_>>());
            sys::reap_all();
            Ok(format!("{plain} {fail} {n}"))
        }));
    }
    // The same open file passed several times, as pointers that were separate all along
    v.push(Scenario::new("twice", 0, move || {
        let n = 1 + choose(4);
        let m = 1 + choose(3);
        clean(|| {
            let inh = inherited();
            let fs: Vec<File> = (0..m).map(|_| memfd(&[0; 1000]).into()).collect();
            let hs: Vec<H> = (0..n).map(|i| File(fs[i % m].try_clone().unwrap())).collect();
            let want: Vec<_> = (0..n).map(|i| Some(ino(fs[i % m].as_raw_fd()))).collect();
            let r = go(0, 0, hs, 0)?;
            judge(&r, &want, &inh, true)?;
            let numbers: std::collections::BTreeSet<_> = r.handles.iter().map(|h| h.0).collect();
            ensure!(numbers.len() == n, "separate handles have become one");
            Ok(())
        })?;
        Ok(format!("{n} {m}"))
    }));
    // Grandchildren
    for n in 0..=if thorough { 2usize } else { 1 } {
        v.push(Scenario::new(format!("grandchild/{n}"), 0, move || {
            let kinds: Vec<usize> = (0..n).map(|_| choose(KINDS)).collect();
            let pad = [0, 100_000][choose(2)];
            clean(|| {
                let inh = inherited();
                let mut d = Vec::new();
                let mut last = Option::None;
                let (mut hs, mut want, mut keep) = (Vec::new(), Vec::new(), Vec::new());
                for (i, k) in kinds.iter().enumerate() {
                    let (h, w, kp) = make(*k, i, 1, &mut d, &mut last);
                    hs.push(h);
                    want.push(w);
                    keep.push(kp);
                }
                drop(last);
                let (before, r, after) = relay.spawn(hs, vec![1; pad]).and_then(|c| c.join()).map_err(|e| e.to_string())?;
                let r = r.map_err(|e| format!("grandchild: {e}"))?;
                judge(&r, &want, &inh, true)?;
                // In the child, exactly the handles passed on are gone
                let gone: Vec<_> = before.iter().filter(|x| !after.contains(x)).map(|x| (x.2, x.3)).collect();
                let passed: std::collections::BTreeSet<_> = want.iter().flatten().collect();
                ensure!(gone.len() == passed.len() && gone.iter().all(|g| passed.contains(g)), "descriptors of the child have changed");
                ensure!(after.iter().all(|x| before.contains(x)), "descriptors of the child have changed");
                connected(keep)
            })?;
            Ok(format!("{kinds:?} {pad}"))
        }));
    }
    v.push(Scenario::new("streamless", 0, move || {
        let mask = choose(8) as u8;
        let n = choose(6);
        let high_first = n > 1 && choose(2) == 1;
        clean(|| {
            let inh = inherited();
            let r = streamless.spawn(mask, n, high_first).and_then(|c| c.join()).map_err(|e| e.to_string())?;
            let (mut r, want) = r.map_err(|e| format!("streams {mask:b} closed: {e}"))?;
            r.table.retain(|t| t.0 < 3 || !inh.contains(&t.0));
            judge(&r, &want.into_iter().map(Some).collect::<Vec<_>>(), &[], true).map_err(|e| format!("streams {mask:b} closed: {e}"))
        })?;
        Ok(format!("{mask} {n} {high_first}"))
    }));
    // Two threads at the same time: one spawns, and the other ...
    const OTHERS: [&str; 5] = ["spawns", "creates", "receives", "clones", "converts"];
    for other in OTHERS {
        for n in 0..3usize {
            if n == 2 && !thorough {
                continue;
            }
            let budget = match (other, thorough) {
                ("spawns", false) => 3,
                ("spawns", true) => 5,
                (_, false) => 3,
                (_, true) => 5,
            };
            v.push(Scenario::new(format!("together/{other}/{n}"), budget, move || {
                warm();
                clean(|| {
                    let inh = inherited();
                    let inh = &inh;
                    let spawn = move |n: usize| -> Body {
                        let mut d = Vec::new();
                        let (mut hs, mut want) = (Vec::new(), Vec::new());
                        for i in 0..n {
                            let (h, w, _) = make([0, 2][i % 2], i, 0, &mut d, &mut Option::None);
                            hs.push(Cell(h));
                            want.push(w);
                        }
                        Box::new(move || {
                            let hs = hs.into_iter().map(|c| c.into()).collect();
                            let c = report.spawn(hs, vec![]).map_err(|e| e.to_string())?;
                            // Not scheduled: when the child gets that far does not depend on the schedule
                            let r = sys::uncontrolled(|| c.join()).map_err(|e| e.to_string())?;
                            judge(&r, &want, inh, true)
                        })
                    };
                    let b: Body = match other {
                        "spawns" => spawn(1),
                        "creates" => Box::new(|| {
                            for _ in 0..2 {
                                let a = crossmist::channel::<u8>().map_err(|e| e.to_string())?;
                                let b = crossmist::duplex::<u8, u8>().map_err(|e| e.to_string())?;
                                drop((a, b));
                            }
                            Ok(())
                        }),
                        "receives" => Box::new(|| {
                            let (mut tx, mut rx) = crossmist::channel::<Vec<File>>().map_err(|e| e.to_string())?;
                            for _ in 0..2 {
                                tx.send(&vec![memfd(b"x").into(), memfd(b"y").into()]).map_err(|e| e.to_string())?;
                                rx.recv().map_err(|e| e.to_string())?.ok_or("nothing")?;
                            }
                            Ok(())
                        }),
                        "clones" => Box::new(|| {
                            let (mut tx, mut rx) = crossmist::channel::<Delayed<(File, Rc<File>)>>().map_err(|e| e.to_string())?;
                            let f = Rc::new(memfd(b"x").into());
                            tx.send(&Delayed::new((memfd(b"y").into(), f))).map_err(|e| e.to_string())?;
                            let d = rx.recv().map_err(|e| e.to_string())?.ok_or("nothing")?;
                            d.deserialize().map_err(|e| e.to_string())?;
                            Ok(())
                        }),
                        _ => Box::new(|| {
                            let (a, b) = crossmist::duplex::<u8, crossmist::Sender<u8>>().map_err(|e| e.to_string())?;
                            let raw = std::os::fd::IntoRawFd::into_raw_fd(a);
                            let a: crossmist::Duplex<u8, crossmist::Sender<u8>> = unsafe { FromRawFd::from_raw_fd(raw as RawFd) };
                            let a = a.into_receiver();
                            drop((a, b));
                            Ok(())
                        }),
                    };
                    sched::run(vec![("spawner", spawn(n)), ("other", b)])?;
                    Ok(())
                })?;
                Ok(String::new())
            }));
        }
    }
    v
}

/// The handles used with threads do not contain Rc.
struct Cell(H);
unsafe impl Send for Cell {}
impl From<Cell> for H {
    fn from(c: Cell) -> H {
        c.0
    }
}
