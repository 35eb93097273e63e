//! C15: descriptor accounting.
use crate::c03::Bag;
use crossmist::{func, Delayed, Deserializer, NonTrivialObject, Object, Serializer};
use mc::ends::*;
use mc::files::*;
use mc::run::Tier;
use mc::sched::{run, Body};
use mc::sys::{self, Call, Kind};
use mc::util::{open_fds, pattern};
use mc::{choose, deviate, ensure, Scenario};
use std::cell::Cell;
use std::fs::File;
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd};
use std::sync::Arc;

const P: usize = 16383;

/// Run `f`, which must drop all it creates, and compare the descriptor tables.
pub fn balanced(f: impl FnOnce() -> Result<String, String>) -> Result<String, String> {
    warm();
    let before = open_fds();
    let r = f()?;
    let after = open_fds();
    for (fd, id) in &after {
        match before.get(fd) {
            None => return Err(format!("a descriptor was leaked ({r})")),
            Some(b) if b != id => return Err(format!("a descriptor was replaced ({r})")),
            _ => {}
        }
    }
    ensure!(before.len() == after.len(), "a descriptor that crossmist did not own was closed ({r})");
    ensure!(!sys::has_children(), "a process was left behind ({r})");
    Ok(r)
}

fn faults(errnos: &'static [i32]) {
    sys::set_policy(Box::new(move |c: &Call| match c.kind {
        Kind::Sendmsg | Kind::Recvmsg | Kind::Socketpair | Kind::Setfd | Kind::Clone | Kind::Dupfd => {
            match deviate(errnos.len() + 1) {
                0 => 0,
                k => errnos[k - 1],
            }
        }
        Kind::Waitpid | Kind::Waitid => [0, libc::EINTR][deviate(2)],
        _ => 0,
    }));
}

fn bag(n: usize, len: usize) -> Bag {
    sys::uncontrolled(|| Bag { data: pattern(n as u32, len), files: (0..n).map(|i| dup(i % POOL)).collect() })
}

thread_local! {
    static FAIL_AT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// An object whose deserialization fails at a chosen occurrence.
struct Flaky(#[allow(dead_code)] File);
unsafe impl NonTrivialObject for Flaky {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize(&self.0);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        let n = FAIL_AT.get();
        FAIL_AT.set(n.wrapping_sub(1));
        if n == 0 {
            return Err(std::io::Error::other("flaky"));
        }
        Ok(Flaky(d.deserialize()?))
    }
}

#[derive(Object)]
struct Several {
    a: Flaky,
    b: [Flaky; 3],
    c: Vec<Flaky>,
    d: Option<Box<Flaky>>,
    e: (File, Flaky),
    f: Arc<Flaky>,
}

#[func]
fn child_take(b: Bag, one: File) -> Bag {
    let mut b = b;
    b.files.push(one);
    b
}
#[func]
fn child_delayed(b: Delayed<(File, Vec<File>)>, a: Arc<File>, c: Arc<File>) -> u32 {
    let b = b.deserialize().unwrap();
    (b.1.len() + Arc::ptr_eq(&a, &c) as usize) as u32
}
#[func]
fn child_exit(code: i32, _f: File) -> Bag {
    std::process::exit(code)
}
#[func]
fn child_wait(rx: crossmist::Receiver<u8>) -> File {
    let mut rx = rx;
    let _ = rx.recv();
    File::open("/dev/null").unwrap()
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let shapes: &[(usize, usize)] = if thorough {
        &[(0, 0), (1, 5), (5, P), (253, 0), (254, 0), (300, 2 * P), (600, 3)]
    } else {
        &[(1, 5), (254, 0), (300, 2 * P)]
    };
    for be in BE_PAIRS {
        for &(n, len) in shapes {
            // Send k objects, receive j of them, drop the endpoints in either order; a failure
            // anywhere
            v.push(Scenario::new(format!("channel/{be:?}/{n}/{len}"), if thorough { 2 } else { 1 }, move || {
                let (k, j, order) = (choose(3), choose(3), choose(2));
                if j > k {
                    return Ok("~".into());
                }
                balanced(|| {
                    let objs: Vec<Bag> = (0..k).map(|_| bag(n, len)).collect();
                    let (mut tx, mut rx) = channel::<Bag>(be, 4_000_000);
                    faults(&[libc::ENOMEM]);
                    sys::controlled(|| {
                        let mut got = Vec::new();
                        let mut ok = 0;
                        for o in &objs {
                            ok += tx.send(o).is_ok() as usize;
                        }
                        for _ in 0..j.min(ok) {
                            if let Ok(Some(b)) = rx.recv() {
                                got.push(b);
                            }
                        }
                        if order == 0 {
                            drop(tx);
                            drop(rx);
                        } else {
                            drop(rx);
                            drop(tx);
                        }
                        sys::clear_policy();
                        Ok(format!("{k} {} {}", ok, got.len()))
                    })
                })
            }));
            // Receiver dropped in the middle of an object; sender's future dropped
            for sa in 0..4 {
                if be == (Be::Sync, Be::Sync) {
                    continue;
                }
                let bound = if !thorough { 1 } else if n == 300 { 2 } else { 3 };
                v.push(Scenario::new(format!("middle/{be:?}/{n}/{len}/{sa}"), bound, move || {
                let ra = choose(4);
                balanced(|| {
                    let o = bag(n, len);
                    let o = &o;
                    let (mut tx, mut rx) = channel::<Bag>(be, TIGHT);
                    let a: Body = Box::new(move || {
                        let mut w = 0;
                        let _ = tx.send_until(o, |_| {
                            w += 1;
                            w > sa
                        });
                        Ok(())
                    });
                    let b: Body = Box::new(move || {
                        let mut w = 0;
                        if let Some(Ok(Some(_))) = rx.recv_until(|_| {
                            w += 1;
                            w > ra
                        }) {
                            let _ = rx.recv();
                        }
                        Ok(())
                    });
                    run(vec![("sender", a), ("receiver", b)])?;
                    Ok(String::new())
                })
            }));
            }
        }
        // Deserialization failing at each place
        v.push(Scenario::new(format!("flaky/{be:?}"), 0, move || {
            let at = choose(12);
            balanced(|| {
                let fl = |i: usize| Flaky(dup(i));
                let o = Several {
                    a: fl(1),
                    b: [fl(2), fl(3), fl(4)],
                    c: vec![fl(5), fl(6)],
                    d: Some(Box::new(fl(7))),
                    e: (dup(8), fl(9)),
                    f: Arc::new(fl(10)),
                };
                sys::controlled(|| {
                    let (mut tx, mut rx) = channel::<Several>(be, 0);
                    tx.send(&o).map_err(|e| format!("send: {e}"))?;
                    tx.send(&o).map_err(|e| format!("send: {e}"))?;
                    FAIL_AT.set(at);
                    let r = rx.recv();
                    FAIL_AT.set(usize::MAX);
                    ensure!(r.is_err() == (at < 9), "deserialization failure {at} not reported");
                    let r = rx.recv().map_err(|e| format!("recv after a failed one: {e}"))?;
                    ensure!(r.is_some(), "object after a failed one lost");
                    Ok(format!("{at}"))
                })
            })
        }));
        // Duplexes, conversions and endpoints sent through channels
        v.push(Scenario::new(format!("endpoints/{be:?}"), if thorough { 2 } else { 1 }, move || {
            let what = choose(5);
            balanced(|| {
                faults(&[libc::ENOMEM]);
                let r = sys::controlled(|| endpoints(be, what));
                sys::clear_policy();
                Ok(format!("{what} {}", r.is_some()))
            })
        }));
    }
    // Creation failing
    v.push(Scenario::new("create", 1, || {
        balanced(|| {
            let k = choose(4);
            faults(&[libc::EMFILE]);
            let r = sys::controlled(|| match k {
                0 => crossmist::channel::<u8>().is_ok(),
                1 => crossmist::duplex::<u8, u8>().is_ok(),
                2 => crossmist::asynchronous::channel::<mc::stream::Mc, u8>().is_ok(),
                _ => crossmist::asynchronous::duplex::<mc::stream::Mc, u8, u8>().is_ok(),
            });
            sys::clear_policy();
            Ok(format!("{k} {r}"))
        })
    }));
    // Spawning: every single failing call, in the parent and between clone and exec
    for what in 0..5usize {
        for errno in [libc::ENOMEM, libc::EINTR] {
            v.push(Scenario::new(format!("spawn/{what}/{errno}"), 0, move || {
                balanced(|| {
                    let kinds = [Kind::Sendmsg, Kind::Recvmsg, Kind::Clone, Kind::Execv, Kind::Setfd, Kind::Socketpair, Kind::Waitpid, Kind::Waitid, Kind::Dupfd];
                    // Failing wait calls with anything but EINTR cannot happen
                    let kinds = if errno == libc::EINTR { &[Kind::Sendmsg, Kind::Recvmsg, Kind::Waitpid, Kind::Waitid][..] } else { &kinds[..6] };
                    let at = choose(24);
                    sys::set_plan(at as i64, errno, kinds);
                    let r = sys::controlled(|| spawns(what));
                    let (_, fired) = sys::plan_result();
                    sys::clear_plan();
                    if fired < 0 {
                        let r = r?;
                        return Ok(format!("~{r}"));
                    }
                    sys::reap_all(); // C16 checks for leftovers
                    Ok(format!("{what} {at} {fired} {}", r.is_ok()))
                })
            }));
        }
    }
    v
}

fn spawns(what: usize) -> Result<String, String> {
    let e = |x: std::io::Error| x.to_string();
    Ok(match what {
        0 => {
            let c = child_take.spawn(bag(3, 10), dup_u(9)).map_err(e)?;
            let b = c.join().map_err(e)?;
            ensure!(b.files.len() == 4, "handles lost");
            "joined".into()
        }
        1 => {
            let b = child_take.run(bag(260, 20000), dup_u(9)).map_err(e)?;
            ensure!(b.files.len() == 261, "handles lost");
            "joined".into()
        }
        2 => {
            let a = Arc::new(dup_u(4));
            let n = child_delayed
                .run(Delayed::new((dup_u(1), vec![dup_u(2), dup_u(3)])), a.clone(), a)
                .map_err(e)?;
            ensure!(n == 3, "wrong result");
            "delayed".into()
        }
        3 => {
            let code = sys::uncontrolled(|| choose(2)) as i32;
            let c = child_exit.spawn(code, dup_u(4)).map_err(e)?;
            ensure!(c.join().is_err(), "failed child reported successful");
            "exited".into()
        }
        _ => {
            let (tx, rx) = crossmist::channel::<u8>().map_err(e)?;
            let c = child_wait.spawn(rx).map_err(e)?;
            let k = c.get_kill_handle();
            let how = sys::uncontrolled(|| choose(2));
            if how == 0 {
                k.kill().map_err(e)?;
                ensure!(c.join().is_err(), "killed child reported successful");
                drop(tx);
            } else {
                drop(tx);
                c.join().map_err(e)?;
            }
            ensure!(k.kill().is_err(), "kill after join");
            "killed".into()
        }
    })
}

fn dup_u(i: usize) -> File {
    sys::uncontrolled(|| dup(i))
}

fn endpoints(be: (Be, Be), what: usize) -> Option<()> {
    match what {
        0 => {
            let (mut t, mut r) = try_channel::<(crossmist::Sender<u8>, crossmist::Receiver<u8>)>(be, 0).ok()?;
            let (a, b) = crossmist::channel::<u8>().ok()?;
            let pair = (a, b);
            t.send(&pair).ok()?;
            let (mut a, b) = r.recv().ok()??;
            a.send(&4).ok()?;
            drop(b);
            let (_, mut b) = pair;
            b.recv().ok()?;
        }
        1 => {
            let (x, y) = try_duplex::<Bag, Bag>(be, 0).ok()?;
            let (mut t, mut r) = (x.into_tx(), y.into_rx());
            t.send(&bag(2, 3)).ok()?;
            r.recv().ok()?;
        }
        2 => {
            let (x, y) = crossmist::duplex::<Bag, Bag>().ok()?;
            let fd = x.into_raw_fd();
            let mut x = unsafe { crossmist::Duplex::<Bag, Bag>::from_raw_fd(fd) };
            let mut y: crossmist::asynchronous::Duplex<mc::stream::Mc, Bag, Bag> = y.try_into().ok()?;
            x.send(&bag(3, 1)).ok()?;
            mc::stream::block_on(y.recv()).ok()?;
        }
        3 => {
            let (mut t, mut r) = try_channel::<Dxy>(be, 0).ok()?;
            let (a, b) = crossmist::asynchronous::duplex::<mc::stream::Mc, u8, u8>().ok()?;
            let o = Dxy { a, b, f: dup_u(5) };
            t.send(&o).ok()?;
            drop(o);
            let mut o = r.recv().ok()??;
            mc::stream::block_on(o.a.send(&1)).ok()?;
            mc::stream::block_on(o.b.recv()).ok()?;
        }
        _ => {
            let (t, r) = crossmist::channel::<Bag>().ok()?;
            let fd = t.as_raw_fd();
            let t2 = unsafe { crossmist::Sender::<Bag>::from_raw_fd(t.into_raw_fd()) };
            assert_eq!(t2.as_raw_fd(), fd);
            let mut t2 = t2;
            let mut r = unsafe { crossmist::Receiver::<Bag>::from_raw_fd(r.into_raw_fd()) };
            t2.send(&bag(1, 1)).ok()?;
            r.recv().ok()?;
        }
    }
    Some(())
}

#[derive(Object)]
struct Dxy {
    a: crossmist::asynchronous::Duplex<mc::stream::Mc, u8, u8>,
    b: crossmist::asynchronous::Duplex<mc::stream::Mc, u8, u8>,
    f: File,
}
