//! C06: children of the runtimes.
use crate::c06::{object, O};
use crate::drive::*;
use crossmist::{func, Duplex};
use mc::ends::{set_sndbuf, TIGHT};
use mc::run::Tier;
use mc::{choose, ensure, sched, sys, Scenario};
use std::os::fd::AsRawFd;
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

const NAP: Duration = Duration::from_millis(4);

/// What happens late: 1: receiving, 2: sending, 3: returning, 4: everything.
fn late(when: usize, now: usize) -> Option<Duration> {
    (when == now || when == 4).then_some(NAP)
}

/// Echo until the channel is closed.
#[func]
fn blocking(mut dx: Duplex<O, O>, when: usize, result: usize, _pad: O) -> O {
    let nap = |n| late(when, n).map_or((), std::thread::sleep);
    loop {
        nap(1);
        let Some(x) = dx.recv().unwrap() else { break };
        nap(2);
        dx.send(&x).unwrap();
    }
    nap(3);
    object(1, 7, result)
}

#[func(tokio(flavor = "current_thread"))]
async fn on_tokio(dx: Duplex<O, O>, when: usize, result: usize, _pad: O) -> O {
    let mut dx: crossmist::tokio::Duplex<O, O> = dx.try_into().unwrap();
    let nap = |n| async move {
        if let Some(d) = late(when, n) {
            tokio::time::sleep(d).await;
        }
    };
    loop {
        nap(1).await;
        let Some(x) = dx.recv().await.unwrap() else { break };
        nap(2).await;
        dx.send(&x).await.unwrap();
    }
    nap(3).await;
    object(1, 7, result)
}

#[func(smol)]
async fn on_smol(dx: Duplex<O, O>, when: usize, result: usize, _pad: O) -> O {
    let mut dx: crossmist::smol::Duplex<O, O> = dx.try_into().unwrap();
    let nap = |n| async move {
        if let Some(d) = late(when, n) {
            async_io::Timer::after(d).await;
        }
    };
    loop {
        nap(1).await;
        let Some(x) = dx.recv().await.unwrap() else { break };
        nap(2).await;
        dx.send(&x).await.unwrap();
    }
    nap(3).await;
    object(1, 7, result)
}

fn run(parent: Rt, child: Rt, when: usize, sizes: [usize; 3]) -> Result<String, String> {
    sched::EXTERNAL.store(true, SeqCst);
    let r = sched::run(vec![(
        "parent",
        Box::new(move || {
            inside(parent, || {
                let [pad, message, result] = sizes;
                let (ours, theirs) = crossmist::duplex::<O, O>().map_err(|e| e.to_string())?;
                set_sndbuf(ours.as_raw_fd(), TIGHT);
                set_sndbuf(theirs.as_raw_fd(), TIGHT);
                let pad = object(0, 9, pad);
                let text = |e: std::io::Error| e.to_string();
                let r = match parent {
                    Rt::Sync => {
                        let c = match child {
                            Rt::Sync => blocking.spawn(theirs, when, result, pad),
                            Rt::Tokio => on_tokio.spawn(theirs, when, result, pad),
                            Rt::Smol => on_smol.spawn(theirs, when, result, pad),
                        }
                        .map_err(text)?;
                        let mut dx = ours;
                        for n in 0..2 {
                            let x = object(0, n, message);
                            let y = dx.request(&x).map_err(text)?;
                            ensure!(x == y, "another answer");
                        }
                        drop(dx);
                        c.join().map_err(text)?
                    }
                    Rt::Tokio => drive(parent, async {
                        let c = match child {
                            Rt::Sync => blocking.spawn_tokio(theirs, when, result, pad).await,
                            Rt::Tokio => on_tokio.spawn_tokio(theirs, when, result, pad).await,
                            Rt::Smol => on_smol.spawn_tokio(theirs, when, result, pad).await,
                        }
                        .map_err(text)?;
                        let mut dx: crossmist::tokio::Duplex<O, O> = ours.try_into().map_err(text)?;
                        for n in 0..2 {
                            let x = object(0, n, message);
                            let y = dx.request(&x).await.map_err(text)?;
                            ensure!(x == y, "another answer");
                        }
                        drop(dx);
                        c.join().await.map_err(text)
                    })?,
                    Rt::Smol => drive(parent, async {
                        let c = match child {
                            Rt::Sync => blocking.spawn_smol(theirs, when, result, pad).await,
                            Rt::Tokio => on_tokio.spawn_smol(theirs, when, result, pad).await,
                            Rt::Smol => on_smol.spawn_smol(theirs, when, result, pad).await,
                        }
                        .map_err(text)?;
                        let mut dx: crossmist::smol::Duplex<O, O> = ours.try_into().map_err(text)?;
                        for n in 0..2 {
                            let x = object(0, n, message);
                            let y = dx.request(&x).await.map_err(text)?;
                            ensure!(x == y, "another answer");
                        }
                        drop(dx);
                        c.join().await.map_err(text)
                    })?,
                };
                ensure!(r == object(1, 7, result), "another result");
                Ok(())
            })
        }),
    )]);
    sched::EXTERNAL.store(false, SeqCst);
    r?;
    ensure!(!sys::has_children(), "a child was not reaped");
    Ok("completed".into())
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let mut v = Vec::new();
    // Objects that exceed the default buffers as well
    let large = 40;
    let sizes: &[usize] = if tier == Tier::Quick { &[0, large] } else { &[0, 1, 3, large] };
    for parent in RTS {
        for child in RTS {
            for when in 0..5 {
                let sizes = sizes.to_vec();
                v.push(Scenario::new(format!("{parent:?} parent, {child:?} child, {when} late"), 0, move || {
                    let s = [sizes[choose(sizes.len())], sizes[choose(sizes.len())], sizes[choose(sizes.len())]];
                    run(parent, child, when, s)
                }));
            }
        }
    }
    v
}
