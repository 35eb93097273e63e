//! C05: failed and abandoned operations.
use crate::c03::{check_bag, Bag};
use mc::ends::*;
use mc::files::*;
use mc::run::Tier;
use mc::sched::{run, Body};
use mc::sys::{self, Call, Kind};
use mc::util::pattern;
use mc::{choose, deviate, ensure, Scenario};
use std::sync::Mutex;

const P: usize = 16383;

#[derive(Clone, Copy, Debug)]
struct Obj {
    id: u32,
    nf: usize,
    len: usize,
}

impl Obj {
    fn ids(&self) -> Vec<usize> {
        (0..self.nf).map(|k| (k * 5 + self.id as usize) % POOL).collect()
    }
    fn make(&self) -> Bag {
        sys::uncontrolled(|| Bag { data: pattern(self.id, self.len), files: self.ids().iter().map(|i| dup(*i)).collect() })
    }
    fn is(&self, b: &Bag) -> bool {
        b.data.len() == self.len && b.files.len() == self.nf && b.data == pattern(self.id, self.len)
    }
    fn check(&self, b: &Bag) -> Result<(), String> {
        sys::uncontrolled(|| check_bag(b, &self.ids(), &pattern(self.id, self.len)))
    }
}

const SENT: u8 = 1;
const FAILED: u8 = 2;
const ABANDONED: u8 = 3;

/// The receiver must have seen exactly the objects whose send succeeded. `log` has one entry per
/// send; `got` what recv returned until end of stream or error.
fn judge(objs: &[Obj], log: &[u8], got: &[Result<Bag, String>], ended: bool) -> Result<(), String> {
    let sent: Vec<&Obj> = objs.iter().zip(log).filter(|(_, l)| **l == SENT).map(|(o, _)| o).collect();
    for (i, g) in got.iter().enumerate() {
        match g {
            Ok(b) => {
                let Some(o) = sent.get(i) else {
                    return Err(format!("object number {i} received ({} bytes, {} handles) although only {} were sent", b.data.len(), b.files.len(), sent.len()));
                };
                if !o.is(b) {
                    let glued = objs.iter().any(|o| o.is(b));
                    return Err(format!(
                        "object number {i} is {} ({} bytes, {} handles)",
                        if glued { "not the one sent at that position" } else { "partial or glued to another one" },
                        b.data.len(),
                        b.files.len()
                    ));
                }
                o.check(b)?;
            }
            Err(_) => {
                ensure!(i == sent.len(), "an object reported as sent was lost");
                ensure!(log.iter().any(|l| *l != SENT), "recv failed although nothing went wrong: {:?}", g.as_ref().err());
                return Ok(());
            }
        }
    }
    ensure!(ended, "no end");
    ensure!(got.len() == sent.len(), "an object reported as sent was lost");
    Ok(())
}

fn receive_all(rx: &mut Rx<Bag>) -> (Vec<Result<Bag, String>>, bool) {
    let mut got = Vec::new();
    loop {
        match rx.recv() {
            Ok(Some(b)) => got.push(Ok(b)),
            Ok(None) => return (got, true),
            Err(e) => {
                got.push(Err(e.to_string()));
                return (got, false);
            }
        }
    }
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let firsts: &[(usize, usize)] = if thorough {
        &[(0, 5), (1, 5), (0, P - 16), (0, P - 15), (0, 2 * P), (0, 3 * P), (253, 0), (254, 0), (300, P + 5), (600, 3), (2, 2 * P), (300, 4 * P)]
    } else {
        &[(0, 5), (1, 5), (0, P + 1), (0, 3 * P), (254, 0), (300, P + 5), (600, 3)]
    };
    let seconds: &[(usize, usize)] = if thorough { &[(0, 3), (1, 4), (0, P + 9), (260, 10)] } else { &[(1, 4), (0, P + 9)] };
    let errnos = [libc::ENOBUFS, libc::ENOMEM, libc::EPERM, libc::ETOOMANYREFS];

    for be in BE_PAIRS {
        for &(nf, len) in firsts {
            for &(nf2, len2) in seconds {
                let objs = [Obj { id: 1, nf, len }, Obj { id: 2, nf: nf2, len: len2 }, Obj { id: 3, nf: 0, len: 7 }];
                // A system error at any send call (up to 2 of them), everything received at the end
                v.push(Scenario::new(format!("fail/{be:?}/{nf}/{len}/{nf2}/{len2}"), if thorough { 2 } else { 1 }, move || {
                    let errno = errnos[choose(if thorough { errnos.len() } else { 2 })];
                    let (mut tx, mut rx) = channel::<Bag>(be, 4_000_000);
                    let bags: Vec<Bag> = objs.iter().map(|o| o.make()).collect();
                    sys::set_policy(Box::new(move |c: &Call| if c.kind == Kind::Sendmsg { [0, errno][deviate(2)] } else { 0 }));
                    let mut log = Vec::new();
                    sys::controlled(|| {
                        for b in &bags {
                            log.push(if tx.send(b).is_ok() { SENT } else { FAILED });
                        }
                        drop(tx);
                    });
                    sys::clear_policy();
                    let (got, ended) = sys::controlled(|| receive_all(&mut rx));
                    judge(&objs, &log, &got, ended)?;
                    Ok(format!("{log:?} {}", got.len()))
                }));
                // A receive failing with a system error loses and mixes up nothing: later receives
                // either report an error or yield the right objects
                if nf2 == 1 || thorough {
                    v.push(Scenario::new(format!("recvfail/{be:?}/{nf}/{len}/{nf2}/{len2}"), if thorough { 2 } else { 1 }, move || {
                        let (mut tx, mut rx) = channel::<Bag>(be, 4_000_000);
                        let bags: Vec<Bag> = objs.iter().map(|o| o.make()).collect();
                        sys::controlled(|| {
                            for b in &bags {
                                tx.send(b).map_err(|e| format!("send: {e}"))?;
                            }
                            drop(tx);
                            Ok::<_, String>(())
                        })?;
                        sys::set_policy(Box::new(move |c: &Call| if c.kind == Kind::Recvmsg { [0, libc::ENOMEM][deviate(2)] } else { 0 }));
                        let mut got = 0;
                        let mut errors = 0;
                        sys::controlled(|| loop {
                            match rx.recv() {
                                Ok(Some(b)) => {
                                    ensure!(got < 3, "too many objects");
                                    ensure!(objs[got].is(&b), "object {got} lost, partial or glued after a failed receive");
                                    objs[got].check(&b)?;
                                    got += 1;
                                }
                                Ok(None) => {
                                    ensure!(got == 3, "clean end of stream after {got} of 3 objects");
                                    return Ok(());
                                }
                                Err(_) => {
                                    errors += 1;
                                    ensure!(errors < 10, "no progress");
                                }
                            }
                        })?;
                        Ok(format!("{errors}"))
                    }));
                }
            }
        }
    }
    // The future of a send is dropped at any of its suspensions, under every schedule
    for rbe in BES {
        for &(nf, len) in firsts {
            let packets = ((len + 16) / P + 1).max(nf.div_ceil(253));
            if packets < 2 {
                continue;
            }
            for &(nf2, len2) in seconds {
                let objs = [Obj { id: 4, nf: 0, len: 10 }, Obj { id: 1, nf, len }, Obj { id: 2, nf: nf2, len: len2 }, Obj { id: 3, nf: 0, len: 7 }];
                v.push(Scenario::new(format!("abandon/{rbe:?}/{nf}/{len}/{nf2}/{len2}"), if thorough { 3 } else { 1 }, move || {
                    let at = choose(packets);
                    let (mut tx, mut rx) = channel::<Bag>((Be::Async, rbe), TIGHT);
                    let bags: Vec<Bag> = objs.iter().map(|o| o.make()).collect();
                    let bags = &bags;
                    let log = Mutex::new(Vec::new());
                    let got = Mutex::new(None);
                    let (log_, got_) = (&log, &got);
                    let a: Body = Box::new(move || {
                        for (i, b) in bags.iter().enumerate() {
                            let mut waits = 0;
                            let r = tx.send_until(b, |_| {
                                waits += 1;
                                i == 1 && waits > at
                            });
                            log_.lock().unwrap().push(match r {
                                None => ABANDONED,
                                Some(Ok(())) => SENT,
                                Some(Err(_)) => FAILED,
                            });
                        }
                        Ok(())
                    });
                    let b: Body = Box::new(move || {
                        *got_.lock().unwrap() = Some(receive_all(&mut rx));
                        Ok(())
                    });
                    run(vec![("sender", a), ("receiver", b)])?;
                    let (got, ended) = got.into_inner().unwrap().unwrap();
                    let log = log.into_inner().unwrap();
                    judge(&objs, &log, &got, ended)?;
                    Ok(format!("{log:?}"))
                }));
            }
        }
        // The same in a duplex: the other direction is not affected
        for nf in [0usize, 300] {
            v.push(Scenario::new(format!("abandon-duplex/{rbe:?}/{nf}"), if thorough { 3 } else { 2 }, move || {
                let at = choose(3);
                let big = Obj { id: 1, nf, len: 3 * P };
                let small = Obj { id: 2, nf: 1, len: 9 };
                let (mut x, mut y) = duplex::<Bag, Bag>((Be::Async, rbe), TIGHT);
                let (b1, b2) = (big.make(), small.make());
                let (b1, b2, b3) = (&b1, &b2, &small.make());
                let a: Body = Box::new(move || {
                    let mut waits = 0;
                    let r = x.send_until(b1, |_| {
                        waits += 1;
                        waits > at
                    });
                    let sent = r.is_some();
                    let later = x.send(b2).is_ok();
                    ensure!(!(sent && !later), "send failed for no reason");
                    let o = x.recv().map_err(|e| format!("the other direction: recv: {e}"))?.ok_or("the other direction was closed")?;
                    small.check(&o)?;
                    Ok(())
                });
                let b: Body = Box::new(move || {
                    y.send(b3).map_err(|e| format!("the other direction: send: {e}"))?;
                    let mut expect = [&big, &small].into_iter();
                    loop {
                        match y.recv() {
                            Ok(Some(o)) => {
                                let Some(e) = expect.find(|e| e.is(&o)) else {
                                    return Err(format!("partial or glued object ({} bytes, {} handles)", o.data.len(), o.files.len()));
                                };
                                e.check(&o)?;
                            }
                            Ok(None) | Err(_) => return Ok(()),
                        }
                    }
                });
                run(vec![("left", a), ("right", b)])?;
                Ok("unaffected".into())
            }));
        }
    }
    // The future of a receive is dropped at any of its suspensions (several times): no data is lost
    for sbe in BES {
        for &(nf, len) in firsts {
            let objs = [Obj { id: 1, nf, len }, Obj { id: 2, nf: 1, len: P + 4 }, Obj { id: 3, nf: 0, len: 7 }];
            for split in 0..2 {
                v.push(Scenario::new(format!("recvabandon/{sbe:?}/{nf}/{len}/{split}"), if thorough { 3 } else { 2 }, move || {
                    let bags: Vec<Bag> = objs.iter().map(|o| o.make()).collect();
                    let bags = &bags;
                    let (x, y) = duplex::<Bag, Bag>((sbe, Be::Async), TIGHT);
                    let mut x = x.into_tx();
                    let a: Body = Box::new(move || {
                        for b in bags {
                            x.send(b).map_err(|e| format!("send: {e}"))?;
                        }
                        Ok(())
                    });
                    let b: Body = Box::new(move || {
                        let mut y = Some(y);
                        let mut rx: Option<Rx<Bag>> = None;
                        let mut i = 0;
                        let mut drops = 0;
                        loop {
                            let decide = |_| {
                                // Dropping is a deviation, so that it happens at most a few times
                                let d = sys::uncontrolled(|| deviate(2)) == 1;
                                drops += d as u32;
                                d
                            };
                            let r = match (&mut rx, &mut y) {
                                (Some(rx), _) => rx.recv_until(decide),
                                (None, Some(y)) => y.recv_until(decide),
                                _ => unreachable!(),
                            };
                            let Some(r) = r else {
                                if split == 1 && rx.is_none() {
                                    // Continue with the receiving half
                                    rx = Some(y.take().unwrap().into_rx());
                                }
                                continue;
                            };
                            match r.map_err(|e| format!("recv after {drops} abandoned: {e}"))? {
                                None => {
                                    ensure!(i == 3, "end of stream after {i} of 3 objects, {drops} receives abandoned");
                                    return Ok(());
                                }
                                Some(b) => {
                                    ensure!(i < 3 && objs[i].is(&b), "object {i} lost, partial or glued after {drops} abandoned receives ({} bytes, {} handles)", b.data.len(), b.files.len());
                                    objs[i].check(&b)?;
                                    i += 1;
                                }
                            }
                        }
                    });
                    run(vec![("sender", a), ("receiver", b)])?;
                    Ok("nothing lost".into())
                }));
            }
        }
        v.push(Scenario::new(format!("recvabandon-pod/{sbe:?}"), if thorough { 4 } else { 2 }, move || {
            const N: usize = 3 * P + 7;
            let o: Vec<Box<[u8; N]>> = (0..2u32).map(|i| pattern(i + 1, N).into_boxed_slice().try_into().unwrap()).collect();
            let o = &o;
            let (mut tx, mut rx) = channel::<[u8; N]>((sbe, Be::Async), TIGHT);
            let a: Body = Box::new(move || {
                for b in o {
                    tx.send(b).map_err(|e| format!("send: {e}"))?;
                }
                Ok(())
            });
            let b: Body = Box::new(move || {
                let mut i = 0;
                loop {
                    let Some(r) = rx.recv_until(|_| sys::uncontrolled(|| deviate(2)) == 1) else { continue };
                    match r.map_err(|e| format!("recv: {e}"))? {
                        None => {
                            ensure!(i == 2, "end of stream after {i} of 2 objects");
                            return Ok(());
                        }
                        Some(b) => {
                            ensure!(i < 2 && b == *o[i], "object {i} altered after abandoned receives");
                            i += 1;
                        }
                    }
                }
            });
            run(vec![("sender", a), ("receiver", b)])?;
            Ok("nothing lost".into())
        }));
    }
    v
}
