//! C01: every object exactly once, in order, intact.
use mc::ends::*;
use mc::run::Tier;
use mc::sched::{run, Body};
use mc::util::pattern;
use mc::{choose, ensure, Scenario};

/// Data bytes per packet; a Vec<u8> of length n occupies n + 8 bytes.
const P: usize = 16383;

fn vec_of(id: u32, total: usize) -> Vec<u8> {
    pattern(id, total.saturating_sub(8))
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();

    // Every object size: sent and received in sequence, followed by a marker object
    let max = if thorough { 4 * P + 64 } else { 2 * P + 600 };
    for be in BE_PAIRS {
        for lo in (0..max).step_by(4096) {
            v.push(Scenario::new(format!("size/{be:?}/{lo}"), 0, move || {
                let len = lo + choose(4096.min(max - lo));
                mc::sys::controlled(|| {
                    let (mut tx, mut rx) = channel::<Vec<u8>>(be, 0);
                    let a = pattern(len as u32, len);
                    let b = vec![7u8; 3];
                    tx.send(&a).map_err(|e| format!("send of {len} bytes: {e}"))?;
                    tx.send(&b).map_err(|e| format!("send: {e}"))?;
                    let x = rx.recv().map_err(|e| format!("recv of {len} bytes: {e}"))?;
                    ensure!(x.as_ref() == Some(&a), "object of {len} bytes altered (got {:?} bytes)", x.map(|x| x.len()));
                    let y = rx.recv().map_err(|e| format!("recv: {e}"))?;
                    ensure!(y.as_ref() == Some(&b), "object after one of {len} bytes altered");
                    Ok(format!("{len}"))
                })
            }));
        }
    }

    // Objects of very many packets, and very many objects: counts and lengths that do not fit 8 or 16 bits
    let huge: &[usize] = if thorough {
        &[65_527, 65_528, 65_529, 131_072, 1 << 20, 255 * P, 256 * P - 8, 256 * P, 257 * P, 1 << 24, 65_540 * P]
    } else {
        &[65_527, 65_528, 65_529, 1 << 20, 255 * P, 256 * P - 8, 256 * P, 257 * P, 1 << 24]
    };
    for be in BE_PAIRS {
        for &n in huge {
            v.push(Scenario::new(format!("huge/{be:?}/{n}"), 0, move || {
                let (mut tx, mut rx) = channel::<Vec<u8>>(be, 0);
                let objs = [pattern(3, n), pattern(4, 5)];
                let objs = &objs;
                let a: Body = Box::new(move || objs.iter().try_for_each(|o| tx.send(o).map_err(|e| format!("send: {e}"))));
                let b: Body = Box::new(move || {
                    for (i, o) in objs.iter().enumerate() {
                        let x = rx.recv().map_err(|e| format!("recv: {e}"))?;
                        ensure!(x.as_ref() == Some(o), "object {i} lost or altered");
                    }
                    ensure!(rx.recv().map_err(|e| format!("recv: {e}"))?.is_none(), "object received that was never sent");
                    Ok(())
                });
                run(vec![("sender", a), ("receiver", b)])?;
                Ok("delivered".into())
            }));
        }
        let many = if thorough { 200_000 } else { 66_000u32 };
        v.push(Scenario::new(format!("many/{be:?}/{many}"), 0, move || {
            let (mut tx, mut rx) = channel::<(u32, String)>(be, 0);
            let a: Body = Box::new(move || {
                (0..many).try_for_each(|i| tx.send(&(i, i.to_string())).map_err(|e| format!("send of object {i}: {e}")))
            });
            let b: Body = Box::new(move || {
                for i in 0..many {
                    let x = rx.recv().map_err(|e| format!("recv of object {i}: {e}"))?;
                    ensure!(x == Some((i, i.to_string())), "object {i} lost or altered");
                }
                ensure!(rx.recv().map_err(|e| format!("recv: {e}"))?.is_none(), "object received that was never sent");
                Ok(())
            });
            run(vec![("sender", a), ("receiver", b)])?;
            Ok("delivered".into())
        }));
    }

    // Plain-memory objects around the packet boundaries
    macro_rules! pod {
        ($($n:expr)*) => {$(
            for be in BE_PAIRS {
                v.push(Scenario::new(format!("pod/{be:?}/{}", $n), 0, move || {
                    mc::sys::controlled(|| {
                        let (mut tx, mut rx) = channel::<[u8; $n]>(be, 0);
                        let mut objs: Vec<Box<[u8; $n]>> = Vec::new();
                        for id in 0..2u32 {
                            objs.push(pattern(id + 5, $n).into_boxed_slice().try_into().unwrap());
                        }
                        for o in &objs {
                            tx.send(&**o).map_err(|e| format!("send: {e}"))?;
                        }
                        drop(tx);
                        for (i, o) in objs.iter().enumerate() {
                            let x = rx.recv().map_err(|e| format!("recv: {e}"))?;
                            ensure!(x.as_ref() == Some(&**o), "plain object {i} of {} bytes altered", $n);
                        }
                        let x = rx.recv().map_err(|e| format!("recv: {e}"))?;
                        ensure!(x.is_none(), "object received that was never sent");
                        Ok(format!("pod {}", $n))
                    })
                }));
            }
        )*};
    }
    pod!(0usize 1usize 2usize 3usize 8usize 255usize 4096usize 16381usize 16382usize 16383usize 16384usize 16385usize 20000usize
         32765usize 32766usize 32767usize 32768usize 49148usize 49149usize 49150usize 49151usize);

    // All sequences of objects over size classes, every interleaving of sender and receiver, with
    // room for one packet in flight
    let classes: [usize; 5] = [8, 20, P, P + 1, 2 * P + 5];
    let maxlen = if thorough { 3 } else { 2 };
    let budget = if thorough { 3 } else { 2 };
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    let mut all: Vec<Vec<usize>> = Vec::new();
    for _ in 0..maxlen {
        seqs = seqs.iter().flat_map(|s| classes.iter().map(move |c| { let mut t = s.clone(); t.push(*c); t })).collect();
        all.extend(seqs.iter().cloned());
    }
    for be in BE_PAIRS {
        for s in &all {
            let s = s.clone();
            v.push(Scenario::new(format!("sched/{be:?}/{s:?}"), budget, move || {
                let (mut tx, mut rx) = channel::<Vec<u8>>(be, TIGHT);
                let objs: Vec<Vec<u8>> = s.iter().enumerate().map(|(i, n)| vec_of(i as u32 + 1, *n)).collect();
                let objs = &objs;
                let a: Body = Box::new(move || {
                    for o in objs {
                        tx.send(o).map_err(|e| format!("send: {e}"))?;
                    }
                    Ok(())
                });
                let b: Body = Box::new(move || {
                    for (i, o) in objs.iter().enumerate() {
                        let x = rx.recv().map_err(|e| format!("recv: {e}"))?;
                        ensure!(x.as_ref() == Some(o), "object {i} lost or altered");
                    }
                    let x = rx.recv().map_err(|e| format!("recv: {e}"))?;
                    ensure!(x.is_none(), "object received that was never sent");
                    Ok(())
                });
                run(vec![("sender", a), ("receiver", b)])?;
                Ok("delivered".into())
            }));
        }
    }

    // Plain-memory multi-packet objects under every interleaving
    for be in BE_PAIRS {
        v.push(Scenario::new(format!("schedpod/{be:?}"), budget, move || {
            const N: usize = 2 * P + 3;
            let (mut tx, mut rx) = channel::<[u8; N]>(be, TIGHT);
            let objs: Vec<Box<[u8; N]>> = (0..2u32).map(|i| pattern(i + 3, N).into_boxed_slice().try_into().unwrap()).collect();
            let objs = &objs;
            let a: Body = Box::new(move || {
                for o in objs {
                    tx.send(&**o).map_err(|e| format!("send: {e}"))?;
                }
                Ok(())
            });
            let b: Body = Box::new(move || {
                for (i, o) in objs.iter().enumerate() {
                    let x = rx.recv().map_err(|e| format!("recv: {e}"))?;
                    ensure!(x.as_ref() == Some(&**o), "object {i} lost or altered");
                }
                Ok(())
            });
            run(vec![("sender", a), ("receiver", b)])?;
            Ok("delivered".into())
        }));
    }

    // Duplex: the two directions are independent
    // (first side's objects, second side's objects, who starts)
    let sizes: &[usize] = if thorough { &[8, 30, P, 2 * P + 1, 3 * P] } else { &[8, P, 2 * P + 1] };
    for be in BE_PAIRS {
        for &n in sizes {
            for &m in sizes {
                v.push(Scenario::new(format!("reqrep/{be:?}/{n}/{m}"), budget, move || {
                    let (mut x, mut y) = duplex::<Vec<u8>, Vec<u8>>(be, TIGHT);
                    let a: Body = Box::new(move || {
                        for i in 0..2u32 {
                            let r = x.request(&vec_of(i, n)).map_err(|e| format!("request: {e}"))?;
                            ensure!(r == vec_of(100 + i, m), "wrong answer to request {i}");
                        }
                        Ok(())
                    });
                    let b: Body = Box::new(move || {
                        for i in 0..2u32 {
                            let q = y.recv().map_err(|e| format!("recv: {e}"))?;
                            ensure!(q.as_ref() == Some(&vec_of(i, n)), "request {i} lost or altered");
                            y.send(&vec_of(100 + i, m)).map_err(|e| format!("send: {e}"))?;
                        }
                        let q = y.recv().map_err(|e| format!("recv: {e}"))?;
                        ensure!(q.is_none(), "object received that was never sent");
                        Ok(())
                    });
                    run(vec![("client", a), ("server", b)])?;
                    Ok("answered".into())
                }));
            }
        }
        // Both sides send first (objects that fit the buffer), then receive
        for &n in &[8usize, 4000] {
            for &m in &[8usize, 4000] {
                v.push(Scenario::new(format!("cross/{be:?}/{n}/{m}"), budget + 1, move || {
                    let (mut x, mut y) = duplex::<Vec<u8>, Vec<u8>>(be, TIGHT);
                    let a: Body = Box::new(move || {
                        for i in 0..2u32 {
                            x.send(&vec_of(i, n)).map_err(|e| format!("send: {e}"))?;
                            let r = x.recv().map_err(|e| format!("recv: {e}"))?;
                            ensure!(r.as_ref() == Some(&vec_of(100 + i, m)), "object lost or altered");
                        }
                        Ok(())
                    });
                    let b: Body = Box::new(move || {
                        for i in 0..2u32 {
                            y.send(&vec_of(100 + i, m)).map_err(|e| format!("send: {e}"))?;
                            let r = y.recv().map_err(|e| format!("recv: {e}"))?;
                            ensure!(r.as_ref() == Some(&vec_of(i, n)), "object lost or altered");
                        }
                        Ok(())
                    });
                    run(vec![("left", a), ("right", b)])?;
                    Ok("crossed".into())
                }));
            }
        }
        // Three actors, two channels that must not mix
        for &n in &[8usize, P + 1] {
            for order in 0..2 {
                v.push(Scenario::new(format!("two/{be:?}/{n}/{order}"), budget, move || {
                    let (mut t1, mut r1) = channel::<Vec<u8>>(be, TIGHT);
                    let (mut t2, mut r2) = channel::<Vec<u8>>(be, TIGHT);
                    let a: Body = Box::new(move || {
                        for i in 0..2u32 {
                            t1.send(&vec_of(i, n)).map_err(|e| format!("send: {e}"))?;
                        }
                        Ok(())
                    });
                    let b: Body = Box::new(move || {
                        for i in 0..2u32 {
                            t2.send(&vec_of(50 + i, P + 9)).map_err(|e| format!("send: {e}"))?;
                        }
                        Ok(())
                    });
                    let c: Body = Box::new(move || {
                        for k in 0..4u32 {
                            // 1 2 1 2 or 1 1 2 2
                            let (first, i) = if order == 0 { (k % 2 == 0, k / 2) } else { (k < 2, k % 2) };
                            let (x, e) = if first {
                                (r1.recv(), vec_of(i, n))
                            } else {
                                (r2.recv(), vec_of(50 + i, P + 9))
                            };
                            let x = x.map_err(|e| format!("recv: {e}"))?;
                            ensure!(x.as_ref() == Some(&e), "object lost, altered or from another channel");
                        }
                        Ok(())
                    });
                    run(vec![("sender1", a), ("sender2", b), ("receiver", c)])?;
                    Ok("separate".into())
                }));
            }
        }
    }
    v
}
