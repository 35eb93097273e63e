//! C19: running out of descriptors.
use crate::c03::{check_bag, Bag};
use mc::ends::*;
use mc::files::*;
use mc::run::Tier;
use mc::sys;
use mc::util::{fd_flags, pattern};
use mc::{choose, ensure, Scenario};

struct Limit(libc::rlimit);

fn open(fd: i32) -> bool {
    fd_flags(fd) >= 0
}

/// Open descriptors below those of the pool of files. Needs no descriptor itself.
fn open_low() -> usize {
    (0..2900).filter(|fd| open(*fd)).count()
}

/// Leave room for exactly `free` new descriptors.
fn limit(free: usize) -> Limit {
    unsafe {
        let mut r: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut r);
        let (mut left, mut n) = (free, 0);
        while left > 0 || open(n) {
            if !open(n) {
                left -= 1;
            }
            n += 1;
        }
        let low = libc::rlimit { rlim_cur: n as u64, rlim_max: r.rlim_max };
        assert_eq!(libc::setrlimit(libc::RLIMIT_NOFILE, &low), 0);
        Limit(r)
    }
}

impl Drop for Limit {
    fn drop(&mut self) {
        unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &self.0) };
    }
}

fn ids(o: usize, n: usize) -> Vec<usize> {
    (0..n).map(|k| (k * 3 + o * 50) % POOL).collect()
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let big: &[usize] = if thorough { &[252, 253, 254, 255, 300, 506, 507] } else { &[253, 254, 300] };
    for be in BE_PAIRS {
        let mut counts: Vec<usize> = (1..=if thorough { 24 } else { 10 }).collect();
        counts.extend(big);
        for n in counts {
            for len in [3usize, 16383 * 2 + 50] {
                v.push(Scenario::new(format!("recv/{be:?}/{n}/{len}"), 0, move || {
                    // Every number of free descriptors up to one more than needed
                    let free = choose(n + 2);
                    let neighbours = [1usize, 0][choose(2)];
                    let got = [0usize, 1][choose(2)]; // receive the first object before or after the limit applies
                    warm();
                    let o: Vec<Bag> = [neighbours, n, neighbours, 0]
                        .iter()
                        .enumerate()
                        .map(|(i, n)| Bag { data: pattern(i as u32, if i == 1 { len } else { 9 }), files: ids(i, *n).iter().map(|i| dup(*i)).collect() })
                        .collect();
                    let (mut tx, mut rx) = channel::<Bag>(be, 4_000_000);
                    sys::controlled(|| {
                        for b in &o {
                            tx.send(b).map_err(|e| format!("send: {e}"))?;
                        }
                        drop(tx);
                        let before = open_low();
                        let mut first = None;
                        if got == 0 {
                            first = rx.recv().map_err(|e| format!("recv: {e}"))?;
                            ensure!(first.is_some(), "object lost");
                        }
                        let held = open_low();
                        let lim = limit(free + (got == 1) as usize * neighbours);
                        if got == 1 {
                            first = rx.recv().map_err(|e| format!("recv: {e}"))?;
                            ensure!(first.is_some(), "object lost");
                        }
                        let r = rx.recv();
                        let now = open_low();
                        drop(lim);
                        check_bag(&first.unwrap(), &ids(0, neighbours), &o[0].data)?;
                        if free >= n {
                            let b = r.map_err(|e| format!("recv with {free} free descriptors for {n}: {e}"))?.ok_or("object lost")?;
                            check_bag(&b, &ids(1, n), &o[1].data)?;
                        } else {
                            match r {
                                Err(_) => {}
                                Ok(None) => return Err(format!("end of stream reported with {free} free descriptors for {n}")),
                                Ok(Some(b)) => {
                                    check_bag(&b, &ids(1, n), &o[1].data)
                                        .map_err(|e| format!("object returned with {free} free descriptors for {n}: {e}"))?;
                                    return Err("received more handles than there is room for".into());
                                }
                            }
                            ensure!(now <= held + (got == 1) as usize * neighbours, "descriptors of a failed receive were kept");
                        }
                        for i in 2..4 {
                            let b = rx.recv().map_err(|e| format!("recv after running out of descriptors: {e}"))?.ok_or("object lost after running out of descriptors")?;
                            check_bag(&b, &ids(i, if i == 2 { neighbours } else { 0 }), &o[i].data)?;
                        }
                        let r = rx.recv().map_err(|e| format!("recv: {e}"))?;
                        ensure!(r.is_none(), "object received that was never sent");
                        ensure!(open_low() + 1 >= before && open_low() <= before, "descriptors leaked");
                        Ok(format!("{n} {free} {}", free >= n))
                    })
                }));
            }
        }
    }
    // The reception is interrupted after any packet, the endpoint may be changed, and goes on with
    // the same or enough descriptors
    let counts: &[usize] = if thorough { &[1, 2, 3, 252, 253, 254, 300, 506, 507] } else { &[1, 3, 253, 254, 300] };
    for be in BES {
        for &n in counts {
            for change in 0..4 {
                if be == Be::Async && change > 1 {
                    continue;
                }
                let name = ["kept", "half", "async", "transferred"][change];
                v.push(Scenario::new(format!("interrupted/{be:?}/{name}/{n}"), 0, move || {
                    let free = if n <= 10 { choose(n + 2) } else { [0, 1, 2, n - 253.min(n), n - 1, n, n + 1, 252, 253, 254][choose(10)] };
                    let at = choose(4);
                    let during = choose(2) == 0; // the limit applies only before the interruption
                    let again = choose(2) == 0; // a second interruption
                    warm();
                    let o: Vec<Bag> = [(n, 16383 * 2 + 50), (1, 9)]
                        .iter()
                        .enumerate()
                        .map(|(i, (n, len))| Bag { data: pattern(i as u32, *len), files: ids(i, *n).iter().map(|i| dup(*i)).collect() })
                        .collect();
                    let (mut tx, dx) = duplex::<Bag, Bag>((Be::Sync, be), 4_000_000);
                    for b in &o {
                        tx.send(b).map_err(|e| format!("send: {e}"))?;
                    }
                    let mut dx = Some(dx);
                    let mut rx: Option<Rx<Bag>> = None;
                    if change > 0 && choose(2) == 0 {
                        rx = Some(dx.take().unwrap().into_rx());
                    }
                    let before = open_low();
                    let mut lim = Some(limit(free));
                    let mut outcome = None;
                    for (round, at) in [at, if again { 0 } else { 9 }, 9].into_iter().enumerate() {
                        let mut calls = 0;
                        let errno = if be == Be::Sync { libc::ENOMEM } else { libc::EAGAIN };
                        sys::set_policy(Box::new(move |c: &sys::Call| {
                            if c.kind != sys::Kind::Recvmsg {
                                return 0;
                            }
                            calls += 1;
                            if calls == at + 1 { errno } else { 0 }
                        }));
                        let r = sys::controlled(|| match (&mut rx, &mut dx) {
                            (Some(rx), _) => rx.recv_until(|_| true),
                            (_, Some(dx)) => dx.recv_until(|_| true),
                            _ => unreachable!(),
                        });
                        sys::clear_policy();
                        match r {
                            None => {}
                            Some(Err(e)) if e.raw_os_error() == Some(libc::ENOMEM) => {}
                            Some(r) => {
                                outcome = Some(r);
                                break;
                            }
                        }
                        if during {
                            lim = None;
                        }
                        if round == 0 && change > 0 {
                            // Needs descriptors
                            let limited = lim.take().is_some();
                            let mut r = match rx.take() {
                                Some(r) => r,
                                None => dx.take().unwrap().into_rx(),
                            };
                            r = match (change, r) {
                                (2, Rx::S(r)) => Rx::A(r.try_into().map_err(|e| format!("conversion: {e:?}"))?),
                                (3, Rx::S(r)) => {
                                    let (mut a, mut b) = crossmist::channel().map_err(|e| e.to_string())?;
                                    a.send(&r).map_err(|e| format!("transfer: {e}"))?;
                                    drop(r);
                                    Rx::S(b.recv().map_err(|e| format!("transfer: {e}"))?.ok_or("transfer: lost")?)
                                }
                                (_, r) => r,
                            };
                            rx = Some(r);
                            if limited {
                                lim = Some(limit(free));
                            }
                        }
                    }
                    drop(lim);
                    let result = match outcome.ok_or("reception did not end")? {
                        Ok(Some(b)) => {
                            check_bag(&b, &ids(0, n), &o[0].data).map_err(|e| format!("object returned with {free} free descriptors for {n}: {e}"))?;
                            true
                        }
                        Ok(None) => return Err("end of stream reported".into()),
                        Err(e) => {
                            ensure!(free < n, "recv with {free} free descriptors for {n}: {e}");
                            false
                        }
                    };
                    let b = match (&mut rx, &mut dx) {
                        (Some(rx), _) => rx.recv(),
                        (_, Some(dx)) => dx.recv(),
                        _ => unreachable!(),
                    };
                    let b = b.map_err(|e| format!("recv after running out of descriptors: {e}"))?.ok_or("object lost after running out of descriptors")?;
                    check_bag(&b, &ids(1, 1), &o[1].data)?;
                    drop(b);
                    ensure!(open_low() <= before, "descriptors leaked");
                    Ok(format!("{n} {free} {result}"))
                }));
            }
        }
    }
    v
}
