//! C02: closing.
use crate::c03::{check_bag, Bag};
use crossmist::Object;
use mc::ends::*;
use mc::files::dup;
use mc::run::Tier;
use mc::sched::{run, Body};
use mc::sys::{Call, Kind};
use mc::util::pattern;
use mc::{choose, ensure, Scenario};
use std::fs::File;
use std::io::ErrorKind;

const P: usize = 16383;

fn vec_of(id: u32, total: usize) -> Vec<u8> {
    pattern(id, total.saturating_sub(8))
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let budget = if thorough { 4 } else { 2 };
    let mut v = Vec::new();
    let sizes: &[usize] = if thorough { &[8, 9, P - 1, P, P + 1, 2 * P, 3 * P] } else { &[8, P, 2 * P] };
    for be in BE_PAIRS {
        // Sender closes after k objects
        for &n in sizes {
            for k in 0..=2u32 {
                v.push(Scenario::new(format!("close-sender/{be:?}/{n}x{k}"), budget, move || {
                    let (mut tx, mut rx) = channel::<Vec<u8>>(be, TIGHT);
                    let a: Body = Box::new(move || {
                        for i in 0..k {
                            tx.send(&vec_of(i, n)).map_err(|e| format!("send: {e}"))?;
                        }
                        drop(tx);
                        Ok(())
                    });
                    let b: Body = Box::new(move || {
                        for i in 0..k {
                            let x = rx.recv().map_err(|e| format!("recv: {e}"))?;
                            ensure!(x.is_some(), "end of stream before object {i} of {k}");
                            ensure!(x == Some(vec_of(i, n)), "object {i} altered");
                        }
                        for _ in 0..3 {
                            let x = rx.recv().map_err(|e| format!("recv after the end: {e}"))?;
                            ensure!(x.is_none(), "object after the end of the stream");
                        }
                        Ok(())
                    });
                    run(vec![("sender", a), ("receiver", b)])?;
                    Ok("ended".into())
                }));
            }
        }
        // Everything sent before the close, received after it
        for &n in sizes {
            for k in 0..=3u32 {
                v.push(Scenario::new(format!("late/{be:?}/{n}x{k}"), 0, move || {
                    mc::sys::controlled(|| {
                        let (mut tx, mut rx) = channel::<Vec<u8>>(be, 0);
                        for i in 0..k {
                            tx.send(&vec_of(i, n)).map_err(|e| format!("send: {e}"))?;
                        }
                        drop(tx);
                        for i in 0..k {
                            let x = rx.recv().map_err(|e| format!("recv: {e}"))?;
                            ensure!(x == Some(vec_of(i, n)), "object {i} lost or altered");
                        }
                        for _ in 0..2 {
                            let x = rx.recv().map_err(|e| format!("recv after the end: {e}"))?;
                            ensure!(x.is_none(), "object after the end of the stream");
                        }
                        Ok("ended".into())
                    })
                }));
            }
        }
        // Zero-sized plain objects are objects, not ends
        v.push(Scenario::new(format!("unit/{be:?}"), budget, move || {
            let (mut tx, mut rx) = channel::<()>(be, TIGHT);
            let a: Body = Box::new(move || {
                for _ in 0..3 {
                    tx.send(&()).map_err(|e| format!("send: {e}"))?;
                }
                Ok(())
            });
            let b: Body = Box::new(move || {
                for _ in 0..3 {
                    let x = rx.recv().map_err(|e| format!("recv: {e}"))?;
                    ensure!(x.is_some(), "early end of stream");
                }
                let x = rx.recv().map_err(|e| format!("recv: {e}"))?;
                ensure!(x.is_none(), "object after the end of the stream");
                Ok(())
            });
            run(vec![("sender", a), ("receiver", b)])?;
            Ok("ended".into())
        }));
        // Receiver closes: sends fail from then on, and never hang
        for &n in sizes {
            v.push(Scenario::new(format!("close-receiver/{be:?}/{n}"), budget, move || {
                let (mut tx, mut rx) = channel::<Vec<u8>>(be, TIGHT);
                let reads = choose(3) as u32;
                let closed = std::sync::atomic::AtomicBool::new(false);
                let closed = &closed;
                let a: Body = Box::new(move || {
                    let mut failed = false;
                    for i in 0..4 {
                        let was_closed = closed.load(std::sync::atomic::Ordering::SeqCst);
                        let r = tx.send(&vec_of(i, n));
                        ensure!(!(was_closed && r.is_ok()), "send to a closed peer reported success");
                        ensure!(!(failed && r.is_ok()), "send succeeded after the peer was found closed");
                        if let Err(e) = &r {
                            ensure!(e.kind() != ErrorKind::WouldBlock && e.kind() != ErrorKind::Interrupted, "send: {e}");
                        }
                        failed |= r.is_err();
                    }
                    // Only so many objects fit the buffer
                    ensure!(failed || n <= 20, "sends succeeded forever");
                    Ok(())
                });
                let b: Body = Box::new(move || {
                    for i in 0..reads {
                        let x = rx.recv().map_err(|e| format!("recv: {e}"))?;
                        ensure!(x == Some(vec_of(i, n)), "object {i} lost or altered");
                    }
                    drop(rx);
                    closed.store(true, std::sync::atomic::Ordering::SeqCst);
                    Ok(())
                });
                run(vec![("sender", a), ("receiver", b)])?;
                Ok("refused".into())
            }));
            // Sequentially: the peer is certainly gone
            v.push(Scenario::new(format!("gone/{be:?}/{n}"), 0, move || {
                mc::sys::controlled(|| {
                    let (mut tx, rx) = channel::<Vec<u8>>(be, 0);
                    drop(rx);
                    for _ in 0..2 {
                        ensure!(tx.send(&vec_of(1, n)).is_err(), "send to a closed peer reported success");
                    }
                    let (mut x, y) = duplex::<Vec<u8>, Vec<u8>>(be, 0);
                    drop(y);
                    ensure!(x.send(&vec_of(1, n)).is_err(), "send to a closed peer reported success");
                    ensure!(x.request(&vec_of(1, n)).is_err(), "request to a closed peer reported success");
                    for _ in 0..2 {
                        let r = x.recv().map_err(|e| format!("recv from a closed peer: {e}"))?;
                        ensure!(r.is_none(), "object from nowhere");
                    }
                    Ok("refused".into())
                })
            }));
        }
        // Duplex: one side sends j objects, reads r of the i objects sent to it, and closes: the
        // other side still gets all j
        for &n in sizes {
            v.push(Scenario::new(format!("unread/{be:?}/{n}"), 0, move || {
                let (i, j, r) = (choose(3) as u32, choose(3) as u32, choose(3) as u32);
                if r > i {
                    return Ok("~".into());
                }
                mc::sys::controlled(|| {
                    let (mut x, mut y) = duplex::<Vec<u8>, Vec<u8>>(be, 0);
                    for k in 0..i {
                        x.send(&vec_of(k, n)).map_err(|e| format!("send: {e}"))?;
                    }
                    for k in 0..r {
                        let o = y.recv().map_err(|e| format!("recv: {e}"))?;
                        ensure!(o == Some(vec_of(k, n)), "object lost or altered");
                    }
                    for k in 0..j {
                        y.send(&vec_of(100 + k, n)).map_err(|e| format!("send: {e}"))?;
                    }
                    drop(y);
                    for k in 0..j {
                        let o = x.recv().map_err(|e| format!("recv after close with unread data: {e}"))?;
                        ensure!(o == Some(vec_of(100 + k, n)), "object lost or altered");
                    }
                    for _ in 0..2 {
                        let o = x.recv().map_err(|e| format!("recv at the end: {e}"))?;
                        ensure!(o.is_none(), "object after the end of the stream");
                    }
                    Ok(format!("{i}/{j}/{r}"))
                })
            }));
            v.push(Scenario::new(format!("unread-sched/{be:?}/{n}"), budget, move || {
                let r = choose(2) as u32;
                let (mut x, mut y) = duplex::<Vec<u8>, Vec<u8>>(be, TIGHT);
                let a: Body = Box::new(move || {
                    for k in 0..2 {
                        if x.send(&vec_of(k, n)).is_err() {
                            break;
                        }
                    }
                    let o = x.recv().map_err(|e| format!("recv: {e}"))?;
                    ensure!(o == Some(vec_of(100, 20)), "object lost or altered");
                    for _ in 0..2 {
                        let o = x.recv().map_err(|e| format!("recv at the end: {e}"))?;
                        ensure!(o.is_none(), "object after the end of the stream");
                    }
                    Ok(())
                });
                let b: Body = Box::new(move || {
                    y.send(&vec_of(100, 20)).map_err(|e| format!("send: {e}"))?;
                    for k in 0..r {
                        let o = y.recv().map_err(|e| format!("recv: {e}"))?;
                        ensure!(o == Some(vec_of(k, n)), "object lost or altered");
                    }
                    drop(y);
                    Ok(())
                });
                run(vec![("left", a), ("right", b)])?;
                Ok("ended".into())
            }));
        }
        // A request whose server goes away before answering
        for &n in sizes {
            v.push(Scenario::new(format!("request/{be:?}/{n}"), budget, move || {
                let mode = choose(3); // close at once, close after reading, answer partially wrong: never
                let (mut x, mut y) = duplex::<Vec<u8>, Vec<u8>>(be, TIGHT);
                let read = std::sync::atomic::AtomicBool::new(false);
                let read = &read;
                let a: Body = Box::new(move || {
                    let r = x.request(&vec_of(1, n));
                    if mode == 2 {
                        ensure!(r.map_err(|e| format!("request: {e}"))? == vec_of(2, n), "wrong answer");
                        let e = x.request(&vec_of(3, n)).err().map(|e| e.kind());
                        ensure!(e.is_some(), "a request without an answer reported success");
                        return Ok(());
                    }
                    let e = match r {
                        Ok(_) => return Err("a request without an answer reported success".into()),
                        Err(e) => e,
                    };
                    if read.load(std::sync::atomic::Ordering::SeqCst) {
                        ensure!(e.kind() == ErrorKind::UnexpectedEof, "unanswered request reported {:?} instead of end of file", e.kind());
                    }
                    Ok(())
                });
                let b: Body = Box::new(move || {
                    if mode >= 1 {
                        let q = y.recv().map_err(|e| format!("recv: {e}"))?;
                        ensure!(q == Some(vec_of(1, n)), "request altered");
                        read.store(true, std::sync::atomic::Ordering::SeqCst);
                    }
                    if mode == 2 {
                        y.send(&vec_of(2, n)).map_err(|e| format!("send: {e}"))?;
                    }
                    Ok(())
                });
                run(vec![("client", a), ("server", b)])?;
                Ok("reported".into())
            }));
        }
        // Unanswered, with the request still unread in the socket
        v.push(Scenario::new(format!("request-unread/{be:?}"), budget, move || {
            let n = [8, 100, P][choose(3)];
            let (mut x, y) = duplex::<Vec<u8>, Vec<u8>>(be, 0);
            let a: Body = Box::new(move || {
                let r = x.request(&vec_of(1, n));
                match r {
                    Ok(_) => Err("a request without an answer reported success".into()),
                    Err(e) if matches!(e.kind(), ErrorKind::UnexpectedEof | ErrorKind::BrokenPipe) => Ok(()),
                    Err(e) => Err(format!("unanswered request reported {:?} instead of end of file", e.kind())),
                }
            });
            let b: Body = Box::new(move || {
                drop(y);
                Ok(())
            });
            run(vec![("client", a), ("server", b)])?;
            Ok("reported".into())
        }));
    }
    // The peer disappears in the middle of an object of several packets
    for rbe in BES {
        midobject::<Vec<u8>>(&mut v, "bytes", rbe, budget);
        midobject::<Vec<(u8, Option<u16>)>>(&mut v, "structural", rbe, budget);
        midobject::<[u8; 2 * P]>(&mut v, "plain2", rbe, budget);
        midobject::<[u8; 4 * P - 1]>(&mut v, "plain4", rbe, budget);
        midobject::<[u64; 5000]>(&mut v, "plain-words", rbe, budget);
        midobject::<Bag>(&mut v, "files", rbe, budget);
        midobject::<Many>(&mut v, "many-files", rbe, budget);
    }
    v
}

/// An object of several packets.
trait Item: Object + Send + Sync + Sized + 'static {
    const SIZES: &'static [usize];
    fn make(size: usize) -> Self;
    fn same(&self, size: usize) -> Result<(), String>;
}
impl Item for Vec<u8> {
    const SIZES: &'static [usize] = &[2 * P, 3 * P, 4 * P];
    fn make(size: usize) -> Self {
        vec_of(9, size)
    }
    fn same(&self, size: usize) -> Result<(), String> {
        ensure!(*self == vec_of(9, size), "object altered");
        Ok(())
    }
}
impl Item for Vec<(u8, Option<u16>)> {
    const SIZES: &'static [usize] = &[9000];
    fn make(size: usize) -> Self {
        (0..size).map(|i| (i as u8, (i % 3 != 0).then_some(i as u16))).collect()
    }
    fn same(&self, size: usize) -> Result<(), String> {
        ensure!(*self == Self::make(size), "object altered");
        Ok(())
    }
}
impl<const N: usize> Item for [u8; N] {
    const SIZES: &'static [usize] = &[N];
    fn make(size: usize) -> Self {
        pattern(9, size).try_into().unwrap()
    }
    fn same(&self, size: usize) -> Result<(), String> {
        ensure!(*self == *pattern(9, size), "object altered");
        Ok(())
    }
}
impl<const N: usize> Item for [u64; N] {
    const SIZES: &'static [usize] = &[N];
    fn make(_: usize) -> Self {
        std::array::from_fn(|i| (i as u64).wrapping_mul(0x9e3779b97f4a7c15))
    }
    fn same(&self, size: usize) -> Result<(), String> {
        ensure!(*self == Self::make(size), "object altered");
        Ok(())
    }
}
impl Item for Bag {
    const SIZES: &'static [usize] = &[P + 1, 3 * P];
    fn make(size: usize) -> Self {
        Bag { data: pattern(9, size), files: vec![dup(3), dup(4)] }
    }
    fn same(&self, size: usize) -> Result<(), String> {
        check_bag(self, &[3, 4], &pattern(9, size))
    }
}
/// The descriptors take more packets than the data.
#[derive(Object)]
struct Many(Vec<File>);
impl Item for Many {
    const SIZES: &'static [usize] = &[254, 300];
    fn make(size: usize) -> Self {
        Many((0..size).map(dup).collect())
    }
    fn same(&self, size: usize) -> Result<(), String> {
        ensure!(self.0.len() == size, "{} files of {size}", self.0.len());
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Channel,
    /// The side that disappears leaves objects unread
    Duplex,
    /// The side that disappears has been asked for the object
    Request,
}

fn midobject<T: Item>(v: &mut Vec<Scenario>, name: &str, rbe: Be, budget: u32) {
    for &size in T::SIZES {
        for via in [Via::Channel, Via::Duplex, Via::Request] {
            for whole in 0..2usize {
                if via == Via::Request && whole > 0 {
                    continue;
                }
                let budget = if via == Via::Channel && ["bytes", "plain2", "plain4"].contains(&name) { budget } else { budget / 2 };
                v.push(Scenario::new(format!("midobject/{name}/{rbe:?}/{size}/{via:?}/{whole}"), budget, move || {
                    let at = choose(3);
                    // A process that dies does not shut anything down
                    let dies = choose(2) == 1;
                    // The receiver may have been interrupted before
                    let interrupted = if rbe == Be::Async && via != Via::Request { choose(3) } else { 0 };
                    mc::files::warm();
                    let (mut tx, mut rx) = duplex::<T, u32>((Be::Async, rbe), TIGHT);
                    let mut req = None;
                    if via == Via::Duplex {
                        rx.send(&1).map_err(|e| format!("send: {e}"))?;
                    }
                    if via == Via::Request {
                        let (x, y) = duplex::<T, u32>((Be::Async, rbe), TIGHT);
                        tx = x;
                        req = Some(y);
                    }
                    let (mut ctx, mut crx) = channel::<T>((Be::Async, rbe), TIGHT);
                    if dies {
                        mc::sys::set_policy(Box::new(|c: &Call| if c.kind == Kind::Shutdown { libc::ENOTCONN } else { 0 }));
                    }
                    let objs: &Vec<T> = & mc::sys::uncontrolled(|| (0..whole + 1).map(|_| T::make(size)).collect());
                    let sent = std::sync::Mutex::new(false);
                    let got = std::sync::Mutex::new(None);
                    let begun = std::sync::Mutex::new(false);
                    let (sent_, got_, begun_) = (&sent, &got, &begun);
                    let a: Body = Box::new(move || {
                        if via == Via::Request {
                            let q = tx.recv().map_err(|e| format!("recv: {e}"))?;
                            ensure!(q == Some(7), "request altered");
                        }
                        for o in &objs[..whole] {
                            let r = if via == Via::Channel { ctx.send(o) } else { tx.send(o) };
                            r.map_err(|e| format!("send: {e}"))?;
                        }
                        let mut waits = 0;
                        let mut stop = |_| {
                            waits += 1;
                            waits > at
                        };
                        let before = mc::sys::packets_sent();
                        let o = &objs[whole];
                        let r = if via == Via::Channel { ctx.send_until(o, &mut stop) } else { tx.send_until(o, &mut stop) };
                        if let Some(r) = r {
                            r.map_err(|e| format!("send: {e}"))?;
                            *sent_.lock().unwrap() = true;
                        }
                        *begun_.lock().unwrap() = mc::sys::packets_sent() > before;
                        Ok(())
                    });
                    let b: Body = Box::new(move || {
                        if let Some(mut d) = req {
                            let r = d.request(&7).map(Some);
                            let next = d.recv();
                            *got_.lock().unwrap() = Some((r, next));
                            return Ok(());
                        }
                        let mut recv = |n: usize| {
                            for _ in 0..n {
                                let r = if via == Via::Channel { crx.recv_until(|_| true) } else { rx.recv_until(|_| true) };
                                if let Some(r) = r {
                                    return r;
                                }
                                mc::sys::uncontrolled(mc::sched::point);
                            }
                            if via == Via::Channel {
                                crx.recv()
                            } else {
                                rx.recv()
                            }
                        };
                        for i in 0..whole {
                            let x = recv(0).map_err(|e| format!("recv: {e}"))?;
                            let Some(x) = x else { return Err(format!("object {i} lost")) };
                            x.same(size)?;
                            mc::sys::uncontrolled(|| drop(x));
                        }
                        let r = recv(interrupted);
                        let next = recv(0);
                        *got_.lock().unwrap() = Some((r, next));
                        Ok(())
                    });
                    run(vec![("sender", a), ("receiver", b)])?;
                    let (got, next) = got.into_inner().unwrap().unwrap();
                    if let Ok(Some(_)) = next {
                        return Err("object from nowhere after the end".into());
                    }
                    if sent.into_inner().unwrap() {
                        let x = got.map_err(|e| format!("recv: {e}"))?;
                        let Some(x) = x else { return Err("object lost".into()) };
                        x.same(size)?;
                        return Ok("~sent".into());
                    }
                    if !begun.into_inner().unwrap() {
                        let end = match got {
                            Ok(x) => x.is_none(),
                            Err(e) => via == Via::Request && e.kind() == ErrorKind::UnexpectedEof,
                        };
                        ensure!(end, "no clean end of stream between objects");
                        return Ok("~before".into());
                    }
                    match got {
                        Err(e) => {
                            ensure!(e.kind() != ErrorKind::WouldBlock && e.kind() != ErrorKind::Interrupted, "recv: {e}");
                        }
                        Ok(None) => return Err("clean end of stream in the middle of an object".into()),
                        Ok(Some(_)) => return Err("partial object received".into()),
                    }
                    Ok("reported".into())
                }));
            }
        }
    }
}
