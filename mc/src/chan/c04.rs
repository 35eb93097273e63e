//! C04: interruptions and would-block answers are harmless.
use crate::c03::{check_bag, check_kept, Bag};
use crossmist::func;
use mc::ends::*;
use mc::files::*;
use mc::run::Tier;
use mc::sched::{run, Body};
use mc::sys::{self, Call, Kind};
use mc::util::pattern;
use mc::{choose, deviate, ensure, Scenario};

const P: usize = 16383;

#[func]
fn child_echo(n: u32, v: Vec<u8>) -> (u32, Vec<u8>) {
    (n + 1, v)
}
#[func]
fn child_unit() {}
#[func]
fn child_fail() -> u32 {
    std::process::exit(3)
}

/// At every call, the environment may answer EINTR, or EAGAIN if the call is non-blocking.
fn interrupt() {
    sys::set_policy(Box::new(|c: &Call| match c.kind {
        Kind::Sendmsg | Kind::Recvmsg if c.nonblock => [0, libc::EINTR, libc::EAGAIN][deviate(3)],
        Kind::Sendmsg | Kind::Recvmsg | Kind::Waitpid | Kind::Waitid => [0, libc::EINTR][deviate(2)],
        _ => 0,
    }));
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let shapes: &[(usize, usize)] = if thorough {
        &[(0, 0), (0, 5), (0, P - 16), (0, P + 1), (0, 3 * P), (1, 5), (253, 0), (254, 0), (300, P + 5), (600, 10), (507, 3 * P), (5, 5 * P)]
    } else {
        &[(0, 5), (0, P + 1), (0, 3 * P), (1, 5), (254, 0), (300, P + 5)]
    };
    for be in BE_PAIRS {
        for &(nf, len) in shapes {
            // In sequence: send two objects, then receive them
            let budget = if thorough { 4 } else { 3 };
            v.push(Scenario::new(format!("seq/{be:?}/{nf}/{len}"), budget, move || {
                let ids: Vec<usize> = (0..nf).map(|k| (k * 5 + len) % POOL).collect();
                let bag = Bag { data: pattern(nf as u32, len), files: ids.iter().map(|i| dup(*i)).collect() };
                let tail = Bag { data: vec![1, 2], files: vec![dup(17)] };
                let (mut tx, mut rx) = channel::<Bag>(be, 4_000_000);
                interrupt();
                sys::controlled(|| {
                    tx.send(&bag).map_err(|e| format!("send interrupted: {e}"))?;
                    tx.send(&tail).map_err(|e| format!("send interrupted: {e}"))?;
                    drop(tx);
                    let x = rx.recv().map_err(|e| format!("recv interrupted: {e}"))?.ok_or("object lost")?;
                    check_bag(&x, &ids, &bag.data)?;
                    let y = rx.recv().map_err(|e| format!("recv interrupted: {e}"))?.ok_or("object lost")?;
                    check_bag(&y, &[17], &[1, 2])?;
                    let z = rx.recv().map_err(|e| format!("recv interrupted: {e}"))?;
                    ensure!(z.is_none(), "object received that was never sent");
                    Ok::<_, String>(())
                })?;
                check_kept(&bag, &ids)?;
                Ok(format!("delivered {nf}/{len}"))
            }));
            // Concurrently, with room for one packet: real and injected would-block answers mix with
            // preemptions
            if nf <= 300 {
                let budget = if thorough { 2 } else { 1 };
                v.push(Scenario::new(format!("sched/{be:?}/{nf}/{len}"), budget, move || {
                    let ids: Vec<usize> = (0..nf).map(|k| (k * 5 + len) % POOL).collect();
                    let bag = Bag { data: pattern(nf as u32, len), files: ids.iter().map(|i| dup(*i)).collect() };
                    let tail = Bag { data: vec![1, 2], files: vec![dup(17)] };
                    let (mut tx, mut rx) = channel::<Bag>(be, TIGHT);
                    let (bag, tail, ids) = (&bag, &tail, &ids);
                    interrupt();
                    let a: Body = Box::new(move || {
                        tx.send(bag).map_err(|e| format!("send interrupted: {e}"))?;
                        tx.send(tail).map_err(|e| format!("send interrupted: {e}"))
                    });
                    let b: Body = Box::new(move || {
                        let x = rx.recv().map_err(|e| format!("recv interrupted: {e}"))?.ok_or("object lost")?;
                        sys::uncontrolled(|| check_bag(&x, ids, &bag.data).map(|()| drop(x)))?;
                        let y = rx.recv().map_err(|e| format!("recv interrupted: {e}"))?.ok_or("object lost")?;
                        check_bag(&y, &[17], &[1, 2])
                    });
                    run(vec![("sender", a), ("receiver", b)])?;
                    Ok("delivered".into())
                }));
            }
        }
        // Plain-memory objects keep their position in another way
        v.push(Scenario::new(format!("pod/{be:?}"), if thorough { 5 } else { 3 }, move || {
            const N: usize = 3 * P + 1;
            let o: Box<[u8; N]> = pattern(4, N).into_boxed_slice().try_into().unwrap();
            let (mut tx, mut rx) = channel::<[u8; N]>(be, 4_000_000);
            interrupt();
            sys::controlled(|| {
                for _ in 0..2 {
                    tx.send(&o).map_err(|e| format!("send interrupted: {e}"))?;
                }
                for _ in 0..2 {
                    let x = rx.recv().map_err(|e| format!("recv interrupted: {e}"))?;
                    ensure!(x.as_ref() == Some(&*o), "object lost or altered");
                }
                Ok("delivered".into())
            })
        }));
        v.push(Scenario::new(format!("request/{be:?}"), if thorough { 3 } else { 2 }, move || {
            let (mut x, mut y) = duplex::<Vec<u8>, Vec<u8>>(be, TIGHT);
            interrupt();
            let a: Body = Box::new(move || {
                let r = x.request(&pattern(1, 20000)).map_err(|e| format!("request interrupted: {e}"))?;
                ensure!(r == pattern(2, 20000), "wrong answer");
                let r = x.request(&pattern(1, 2)).map_err(|e| e.kind());
                ensure!(r == Err(std::io::ErrorKind::UnexpectedEof), "unanswered request reported {r:?}");
                Ok(())
            });
            let b: Body = Box::new(move || {
                let q = y.recv().map_err(|e| format!("recv interrupted: {e}"))?;
                ensure!(q == Some(pattern(1, 20000)), "request lost or altered");
                y.send(&pattern(2, 20000)).map_err(|e| format!("send interrupted: {e}"))?;
                let q = y.recv().map_err(|e| format!("recv interrupted: {e}"))?;
                ensure!(q == Some(pattern(1, 2)), "request lost or altered");
                Ok(())
            });
            run(vec![("client", a), ("server", b)])?;
            Ok("answered".into())
        }));
    }
    // Spawning and joining real children
    let budget = if thorough { 3 } else { 2 };
    for len in [0usize, 40000] {
        v.push(Scenario::new(format!("spawn/{len}"), budget, move || {
            let data = pattern(3, len);
            interrupt();
            let r = sys::controlled(|| {
                let c = child_echo.spawn(5, data.clone()).map_err(|e| format!("spawn interrupted: {e}"))?;
                c.join().map_err(|e| format!("join interrupted: {e}"))
            })?;
            ensure!(r == (6, data), "wrong return value");
            ensure!(!sys::has_children(), "the child was not reaped");
            Ok(format!("joined {len}"))
        }));
    }
    v.push(Scenario::new("spawn/outcomes", budget, move || {
        let k = choose(3);
        interrupt();
        sys::controlled(|| match k {
            0 => {
                let c = child_unit.spawn().map_err(|e| format!("spawn interrupted: {e}"))?;
                c.join().map_err(|e| format!("join interrupted: {e}"))
            }
            1 => {
                let c = child_fail.spawn().map_err(|e| format!("spawn interrupted: {e}"))?;
                match c.join() {
                    Ok(_) => Err("a failed child was reported successful".into()),
                    Err(_) => Ok(()),
                }
            }
            _ => {
                let r = child_echo.run(1, vec![9]).map_err(|e| format!("run interrupted: {e}"))?;
                ensure!(r == (2, vec![9]), "wrong return value");
                Ok(())
            }
        })?;
        ensure!(!sys::has_children(), "the child was not reaped");
        Ok(format!("outcome {k}"))
    }));
    v
}
