//! Endpoints and children: every short history.
use crate::track::*;
use crossmist::{func, Duplex, Object, Receiver, Sender};
use mc::ends::{set_sndbuf, TIGHT};
use mc::run::Tier;
use mc::stream::{block_on, block_on_until, noop_waker, Mc};
use mc::{ensure, Scenario};
use std::future::Future;
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd};

type AS<T> = crossmist::asynchronous::Sender<Mc, T>;
type AR<T> = crossmist::asynchronous::Receiver<Mc, T>;

trait Item: Object + 'static {
    fn make() -> Self;
    fn check(&self);
}
impl Item for Vec<Tok> {
    fn make() -> Self {
        vec![Tok::new(), Tok::new()]
    }
    fn check(&self) {
        self.iter().for_each(Tok::check)
    }
}
/// Several packets
impl Item for (Tok, Vec<u8>) {
    fn make() -> Self {
        (Tok::new(), vec![1; 40000])
    }
    fn check(&self) {
        self.0.check()
    }
}
impl Item for [u8; 40000] {
    fn make() -> Self {
        [1; 40000]
    }
    fn check(&self) {}
}

enum Tx<T: Object> {
    S(Sender<T>),
    A(AS<T>),
    Gone,
}
enum Rx<T: Object> {
    S(Receiver<T>),
    A(AR<T>),
    Gone,
}

fn err(e: std::io::Error) -> String {
    e.to_string()
}

/// Histories of one channel. Objects of several packets are sent and received alternately, in pieces
/// where a call would block.
fn channel<T: Item>(v: &mut Vec<Scenario>, name: &str, depth: usize, tight: bool) {
    v.push(Scenario::new(format!("channel/{name}"), 0, move || {
        owned(|| {
            let (tx, rx) = crossmist::channel::<T>().map_err(err)?;
            set_sndbuf(tx.as_raw_fd(), if tight { TIGHT } else { 4_000_000 });
            let asynchronous = tight || pick(2) == 1;
            let (mut tx, mut rx) = if asynchronous {
                (Tx::A(tx.try_into().map_err(err)?), Rx::A(rx.try_into().map_err(err)?))
            } else {
                (Tx::S(tx), Rx::S(rx))
            };
            let mut log = String::with_capacity(100);
            let mut queued = 0;
            let mut broken = false;
            for _ in 0..depth {
                match pick(if tight { 10 } else { 9 }) {
                    0 => break,
                    9 => {
                        // Both ends make progress in turn
                        log.push('p');
                        let o = T::make();
                        let (Tx::A(tx), Rx::A(rx)) = (&mut tx, &mut rx) else { return Ok(("~".into(), false)) };
                        let waker = noop_waker();
                        let mut cx = std::task::Context::from_waker(&waker);
                        let mut sending = std::pin::pin!(tx.send(&o));
                        loop {
                            if let std::task::Poll::Ready(r) = sending.as_mut().poll(&mut cx) {
                                queued += r.is_ok() as usize;
                                break;
                            }
                            if pick(2) == 0 {
                                broken = true;
                                break;
                            }
                            if let Some(Ok(Some(x))) = block_on_until(rx.recv(), |_| true) {
                                x.check();
                                queued -= 1;
                            }
                        }
                        o.check();
                    }
                    1 => {
                        log.push('s');
                        let o = T::make();
                        match &mut tx {
                            Tx::S(tx) => {
                                if tx.send(&o).is_ok() {
                                    queued += 1;
                                }
                            }
                            // Abandoned once it would block
                            Tx::A(tx) => match block_on_until(tx.send(&o), |_| true) {
                                Some(Ok(())) => queued += 1,
                                Some(Err(_)) => {}
                                None => broken = true,
                            },
                            Tx::Gone => return Ok(("~".into(), false)),
                        }
                        o.check();
                    }
                    2 | 3 if queued == 0 && !broken && matches!((&tx, &rx), (Tx::S(_), Rx::S(_)) | (Tx::A(_), Rx::S(_))) => return Ok(("~".into(), false)),
                    2 => {
                        log.push('r');
                        let r = match &mut rx {
                            Rx::S(rx) => rx.recv(),
                            Rx::A(rx) => match block_on_until(rx.recv(), |_| true) {
                                None => continue,
                                Some(r) => r,
                            },
                            Rx::Gone => return Ok(("~".into(), false)),
                        };
                        if let Ok(Some(x)) = &r {
                            x.check();
                            queued -= 1;
                        }
                    }
                    3 => {
                        log.push('f');
                        fail_at(1, false);
                        let r = match &mut rx {
                            Rx::S(rx) => rx.recv(),
                            Rx::A(rx) => match block_on_until(rx.recv(), |_| true) {
                                None => {
                                    fail_at(0, false);
                                    continue;
                                }
                                Some(r) => r,
                            },
                            Rx::Gone => return Ok(("~".into(), false)),
                        };
                        if queued > 0 {
                            queued -= 1;
                        }
                        fail_at(0, false);
                        drop(r);
                    }
                    4 => {
                        log.push('d');
                        tx = Tx::Gone;
                    }
                    5 => {
                        log.push('D');
                        rx = Rx::Gone;
                    }
                    6 => {
                        log.push('x');
                        tx = match tx {
                            Tx::S(tx) => Tx::A(tx.try_into().map_err(err)?),
                            _ => return Ok(("~".into(), false)),
                        };
                    }
                    7 => {
                        log.push('X');
                        rx = match rx {
                            Rx::S(rx) => Rx::A(rx.try_into().map_err(err)?),
                            _ => return Ok(("~".into(), false)),
                        };
                    }
                    _ => {
                        // Send the endpoint itself
                        log.push('t');
                        match &rx {
                            Rx::S(old) => {
                                let (mut a, mut b) = crossmist::channel::<Receiver<T>>().map_err(err)?;
                                a.send(old).map_err(err)?;
                                rx = Rx::S(b.recv().map_err(err)?.unwrap());
                            }
                            Rx::A(old) => {
                                let (mut a, mut b) = crossmist::channel::<AR<T>>().map_err(err)?;
                                a.send(old).map_err(err)?;
                                rx = Rx::A(b.recv().map_err(err)?.unwrap());
                            }
                            Rx::Gone => return Ok(("~".into(), false)),
                        }
                    }
                }
            }
            if pick(2) == 0 {
                drop(tx);
                drop(rx);
            } else {
                drop(rx);
                drop(tx);
            }
            Ok((log, false))
        })
    }));
}

fn duplex(v: &mut Vec<Scenario>, depth: usize) {
    v.push(Scenario::new("duplex", 0, move || {
        owned(|| {
            let (mut x, mut y) = crossmist::duplex::<Vec<Tok>, (Tok, Vec<u8>)>().map_err(err)?;
            [x.as_raw_fd(), y.as_raw_fd()].into_iter().for_each(|fd| set_sndbuf(fd, 4_000_000));
            let mut log = String::with_capacity(100);
            let mut queued = [0, 0];
            for _ in 0..depth {
                match pick(8) {
                    0 => break,
                    1 => {
                        log.push('s');
                        x.send(&Item::make()).map_err(err)?;
                        queued[0] += 1;
                    }
                    2 => {
                        log.push('S');
                        y.send(&Item::make()).map_err(err)?;
                        queued[1] += 1;
                    }
                    3 if queued[0] > 0 => {
                        log.push('r');
                        y.recv().map_err(err)?.unwrap().check();
                        queued[0] -= 1;
                    }
                    4 if queued[1] > 0 => {
                        log.push('R');
                        x.recv().map_err(err)?.unwrap().check();
                        queued[1] -= 1;
                    }
                    5 if queued[1] > 0 => {
                        log.push('q');
                        x.request(&Item::make()).map_err(err)?.check();
                        queued[0] += 1;
                        queued[1] -= 1;
                    }
                    6 => {
                        log.push('w');
                        x = unsafe { Duplex::from_raw_fd(x.into_raw_fd()) };
                    }
                    7 => {
                        log.push('i');
                        let (tx, rx) = (x.into_sender(), y.into_receiver());
                        if pick(2) == 0 {
                            drop(tx);
                        } else {
                            drop(rx);
                        }
                        return Ok((log, false));
                    }
                    _ => return Ok(("~".into(), false)),
                }
            }
            Ok((log, false))
        })
    }));
    v.push(Scenario::new("duplex-async", 0, move || {
        owned(|| {
            let (mut x, mut y) = crossmist::asynchronous::duplex::<Mc, Vec<Tok>, (Tok, Vec<u8>)>().map_err(err)?;
            let mut log = String::with_capacity(100);
            for _ in 0..depth {
                match pick(7) {
                    0 => break,
                    1 => {
                        log.push('s');
                        let _ = block_on_until(x.send(&Item::make()), |_| true);
                    }
                    2 => {
                        log.push('S');
                        let _ = block_on_until(y.send(&Item::make()), |_| true);
                    }
                    3 => {
                        log.push('r');
                        let _ = block_on_until(y.recv(), |_| true);
                    }
                    4 => {
                        log.push('R');
                        let _ = block_on_until(x.recv(), |_| true);
                    }
                    5 => {
                        log.push('q');
                        let _ = block_on_until(x.request(&Item::make()), |_| true);
                    }
                    _ => {
                        log.push('i');
                        let (mut tx, mut rx) = (x.into_sender(), y.into_receiver());
                        let _ = block_on_until(rx.recv(), |_| true);
                        let _ = block_on_until(tx.send(&Item::make()), |_| true);
                        return Ok((log, false));
                    }
                }
            }
            let _ = block_on(async {});
            Ok((log, false))
        })
    }));
}

#[func]
fn child(how: u8, a: Tok, b: Vec<Tok>) -> Vec<Tok> {
    match how {
        0 => {
            let mut b = b;
            b.push(a);
            b
        }
        1 => {
            std::panic::set_hook(Box::new(|_| {}));
            panic!()
        }
        2 => std::process::exit(0),
        _ => loop {
            std::thread::sleep(std::time::Duration::from_secs(100));
        },
    }
}

fn children(v: &mut Vec<Scenario>) {
    v.push(Scenario::new("children", 0, || {
        owned(|| {
            let how = pick(4) as u8;
            let end = pick(4);
            let fails = pick(3);
            let before = alive();
            let c = child.spawn(how, Tok::new(), vec![Tok::new()]).map_err(err)?;
            ensure!(alive() == before, "arguments that have been passed are still alive");
            fail_at(fails, false);
            match end {
                0 if how < 3 => {
                    let r = c.join();
                    ensure!(r.is_ok() == (how == 0 && fails == 0), "wrong outcome");
                    r.iter().flatten().for_each(Tok::check);
                }
                1 if fails == 0 => {
                    let k = c.get_kill_handle();
                    let _ = k.kill();
                    let _ = c.join();
                    drop(k);
                }
                2 if how < 3 && fails == 0 => {
                    let k = c.get_kill_handle();
                    let _ = c.join();
                    ensure!(k.kill().is_err(), "killed");
                }
                3 if fails == 0 => {
                    let k = c.get_kill_handle();
                    drop(c);
                    let _ = k.kill();
                    mc::sys::reap_all();
                }
                _ => {
                    let k = c.get_kill_handle();
                    let _ = k.kill();
                    let _ = c.join();
                    return Ok(("~".into(), false));
                }
            }
            Ok((["returned", "panicked", "exited", "killed"][how as usize].into(), false))
        })
    }));
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let depth = if tier == Tier::Thorough { 6 } else { 4 };
    let mut v = Vec::new();
    channel::<Vec<Tok>>(&mut v, "small", depth, false);
    channel::<(Tok, Vec<u8>)>(&mut v, "large", depth, false);
    channel::<[u8; 40000]>(&mut v, "plain", depth, false);
    channel::<(Tok, Vec<u8>)>(&mut v, "large-tight", depth, true);
    channel::<[u8; 40000]>(&mut v, "plain-tight", depth, true);
    duplex(&mut v, depth);
    children(&mut v);
    v
}
