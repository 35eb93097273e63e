//! C06: endpoints of the real runtimes, in all schedules.
//!
//! Two sides of a duplex channel whose buffers hold one packet each run scripts. As long as the
//! scripts cannot deadlock on bounded queues, they complete in every schedule or in none, so that a
//! simulation decides which pairs of scripts must complete.
use crate::drive::*;
use crossmist::asynchronous::{self, AsyncStream};
use crossmist::{smol::Smol, tokio::Tokio};
use mc::ends::{set_sndbuf, TIGHT};
use mc::run::Tier;
use mc::util::pattern;
use mc::{ensure, sched, Scenario};
use std::io::ErrorKind;
use std::os::fd::AsRawFd;

pub type O = Vec<u8>;
const PACKET: usize = 16383;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    /// Send an object of so many packets.
    S(usize),
    R,
    /// Send and wait for the answer.
    Q(usize),
    /// See the other side close.
    E,
    /// Send to a side that may have been closed, and end.
    Broken(usize),
    /// Drop the future of a send at some point, and end.
    Dropped(usize),
    /// Receive something that may be cut off, and end.
    Partial,
}
use Op::*;

pub fn object(side: usize, n: usize, packets: usize) -> O {
    pattern((side * 100 + n) as u32, if packets == 0 { 1 } else { packets * PACKET - 8 })
}

/// What a side is to receive, in order.
fn incoming(side: usize, other: &[Op]) -> Vec<O> {
    let sent = other.iter().filter_map(|o| match o {
        S(k) | Q(k) | Dropped(k) | Broken(k) => Some(*k),
        _ => None,
    });
    sent.enumerate().map(|(n, k)| object(1 - side, n, k)).collect()
}

fn same(got: &O, want: Option<&O>) -> Result<(), String> {
    ensure!(Some(got) == want, "received {} bytes, {:?} expected", got.len(), want.map(|w| w.len()));
    Ok(())
}

fn closed(e: &std::io::Error) -> bool {
    matches!(e.kind(), ErrorKind::BrokenPipe | ErrorKind::ConnectionReset)
}

/// The script of a side, on what `$send` etc. do.
macro_rules! script {
    ($side:expr, $ops:expr, $other:expr, $send:ident, $recv:ident, $request:ident, $dropped:ident) => {{
        let (side, other) = ($side, $other);
        let want = incoming(side, other);
        let (mut sent, mut received) = (0, 0);
        for op in $ops {
            let fail = |e| format!("{op:?}: {e}");
            match *op {
                S(k) => {
                    $send!(object(side, sent, k)).map_err(fail)?;
                    sent += 1;
                }
                R => {
                    let x = $recv!().map_err(fail)?;
                    let x = x.ok_or("the channel is closed")?;
                    same(&x, want.get(received))?;
                    received += 1;
                }
                Q(k) => {
                    let x = $request!(object(side, sent, k)).map_err(fail)?;
                    same(&x, want.get(received))?;
                    sent += 1;
                    received += 1;
                }
                E => {
                    let x = $recv!().map_err(fail)?;
                    ensure!(x.is_none(), "received something after the last object");
                }
                Broken(k) => match $send!(object(side, sent, k)) {
                    Ok(()) => sent += 1,
                    Err(e) => {
                        ensure!(closed(&e), "sending to a closed side: {e}");
                        break;
                    }
                },
                Dropped(k) => {
                    $dropped!(object(side, sent, k));
                    break;
                }
                Partial => {
                    if let Ok(Some(x)) = $recv!() {
                        same(&x, want.get(received))?;
                    }
                    break;
                }
            }
        }
        Ok(())
    }};
}

#[allow(unreachable_code)]
fn blocking(dx: &mut crossmist::Duplex<O, O>, side: usize, ops: &[Op], other: &[Op]) -> Result<(), String> {
    macro_rules! send { ($o:expr) => { dx.send(&$o) } }
    macro_rules! recv { () => { dx.recv() } }
    macro_rules! request { ($o:expr) => { dx.request(&$o) } }
    macro_rules! dropped { ($o:expr) => { panic!("{} bytes cannot be dropped", $o.len()) } }
    script!(side, ops, other, send, recv, request, dropped)
}

async fn send<S: AsyncStream>(dx: &mut asynchronous::Duplex<S, O, O>, o: O) -> std::io::Result<()> {
    dx.send(&o).await
}
async fn recv<S: AsyncStream>(dx: &mut asynchronous::Duplex<S, O, O>) -> std::io::Result<Option<O>> {
    // Dropping the future of a receive changes nothing
    loop {
        if let Some(r) = unless_dropped(dx.recv()).await {
            return r;
        }
    }
}
async fn request<S: AsyncStream>(dx: &mut asynchronous::Duplex<S, O, O>, o: O) -> std::io::Result<O> {
    dx.request(&o).await
}
async fn dropped<S: AsyncStream>(dx: &mut asynchronous::Duplex<S, O, O>, o: O) {
    let _ = unless_dropped(dx.send(&o)).await;
}

pub async fn asynchronously<S: AsyncStream>(
    dx: &mut asynchronous::Duplex<S, O, O>,
    side: usize,
    ops: &[Op],
    other: &[Op],
) -> Result<(), String> {
    macro_rules! send { ($o:expr) => { send(dx, $o).await } }
    macro_rules! recv { () => { recv(dx).await } }
    macro_rules! request { ($o:expr) => { request(dx, $o).await } }
    macro_rules! dropped { ($o:expr) => { dropped(dx, $o).await } }
    script!(side, ops, other, send, recv, request, dropped)
}

/// Whether the scripts complete on queues of one packet.
pub fn completes(scripts: [&[Op]; 2]) -> bool {
    let mut at = [0usize; 2];
    // Packets left of the current operation (0: not begun), and whether requests have been sent
    let mut left = [0usize; 2];
    let mut asked = [false; 2];
    // One packet: Some(last of its object)
    let mut queue: [Option<bool>; 2] = [None; 2];
    loop {
        let mut progress = false;
        for i in 0..2 {
            let Some(op) = scripts[i].get(at[i]) else { continue };
            let sending = match op {
                S(k) | Broken(k) | Dropped(k) => Some(*k),
                Q(k) if !asked[i] => Some(*k),
                _ => None,
            };
            if let Some(k) = sending {
                if left[i] == 0 {
                    left[i] = k.max(1);
                }
                if queue[i].is_none() {
                    left[i] -= 1;
                    queue[i] = Some(left[i] == 0);
                    progress = true;
                    if left[i] == 0 {
                        if matches!(op, Q(_)) {
                            asked[i] = true;
                        } else {
                            at[i] += 1;
                        }
                    }
                }
            } else if *op == E {
                if at[1 - i] == scripts[1 - i].len() && queue[1 - i].is_none() {
                    at[i] += 1;
                    progress = true;
                }
            } else if let Some(last) = queue[1 - i].take() {
                progress = true;
                if last {
                    asked[i] = false;
                    at[i] += 1;
                }
            }
        }
        if !progress {
            return (0..2).all(|i| at[i] == scripts[i].len());
        }
    }
}

/// Run a side on a blocking endpoint converted to this kind.
fn side(rt: Rt, dx: crossmist::Duplex<O, O>, i: usize, ops: &[Op], other: &[Op]) -> Result<(), String> {
    let fail = |e| format!("conversion: {e}");
    inside(rt, || match rt {
        Rt::Sync => blocking(&mut { dx }, i, ops, other),
        Rt::Tokio => {
            let mut dx: asynchronous::Duplex<Tokio, O, O> = dx.try_into().map_err(fail)?;
            drive(rt, asynchronously(&mut dx, i, ops, other))
        }
        Rt::Smol => {
            let mut dx: asynchronous::Duplex<Smol, O, O> = dx.try_into().map_err(fail)?;
            drive(rt, asynchronously(&mut dx, i, ops, other))
        }
    })
}

/// Two threads.
fn threads(rts: [Rt; 2], scripts: [Vec<Op>; 2]) -> Result<String, String> {
    let (a, b) = crossmist::duplex::<O, O>().map_err(|e| e.to_string())?;
    set_sndbuf(a.as_raw_fd(), TIGHT);
    set_sndbuf(b.as_raw_fd(), TIGHT);
    let s = &scripts;
    sched::run(vec![
        ("a", Box::new(move || side(rts[0], a, 0, &s[0], &s[1]))),
        ("b", Box::new(move || side(rts[1], b, 1, &s[1], &s[0]))),
    ])?;
    Ok("completed".into())
}

/// One task.
fn one_task<S: AsyncStream + Send>(rt: Rt, scripts: [Vec<Op>; 2]) -> Result<String, String> {
    let s = &scripts;
    sched::run(vec![(
        "task",
        Box::new(move || {
            inside(rt, || {
                let (mut a, mut b) = asynchronous::duplex::<S, O, O>().map_err(|e| e.to_string())?;
                set_sndbuf(a.as_raw_fd(), TIGHT);
                set_sndbuf(b.as_raw_fd(), TIGHT);
                // A side that is done closes
                let fa = async {
                    let r = asynchronously(&mut a, 0, &s[0], &s[1]).await;
                    drop(a);
                    r
                };
                let fb = async {
                    let r = asynchronously(&mut b, 1, &s[1], &s[0]).await;
                    drop(b);
                    r
                };
                let (x, y) = both(rt, fa, fb);
                x.and(y)
            })
        }),
    )])?;
    Ok("completed".into())
}

/// Unidirectional endpoints, and an endpoint received by the runtime that waits on it.
fn received<S: AsyncStream + Send + 'static>(rt: Rt, sender: Rt, k: usize) -> Result<String, String> {
    type Rx<S> = asynchronous::Receiver<S, O>;
    let (mut carrier, carried) = crossmist::channel::<Rx<S>>().map_err(|e| e.to_string())?;
    let (tx, rx) = crossmist::channel::<O>().map_err(|e| e.to_string())?;
    set_sndbuf(tx.as_raw_fd(), TIGHT);
    let text = |e: std::io::Error| e.to_string();
    sched::run(vec![
        (
            "a",
            Box::new(move || {
                inside(rt, || {
                    let rx: Rx<S> = rx.try_into().map_err(text)?;
                    carrier.send(&rx).map_err(text)
                })?;
                drop(carrier);
                inside(sender, || {
                    let os = [object(0, 0, k), object(0, 1, 1)];
                    match sender {
                        Rt::Sync => {
                            let mut tx = tx;
                            os.iter().try_for_each(|o| tx.send(o))
                        }
                        Rt::Tokio => {
                            let mut tx: asynchronous::Sender<Tokio, O> = tx.try_into()?;
                            os.iter().try_for_each(|o| drive(sender, tx.send(o)))
                        }
                        Rt::Smol => {
                            let mut tx: asynchronous::Sender<Smol, O> = tx.try_into()?;
                            os.iter().try_for_each(|o| drive(sender, tx.send(o)))
                        }
                    }
                })
                .map_err(text)
            }),
        ),
        (
            "b",
            Box::new(move || {
                inside(rt, || {
                    let mut carried: asynchronous::Receiver<S, Rx<S>> = carried.try_into().map_err(text)?;
                    let mut rx = drive(rt, carried.recv()).map_err(text)?.ok_or("no endpoint was received")?;
                    for want in [Some(object(0, 0, k)), Some(object(0, 1, 1)), None] {
                        let got = drive(rt, async {
                            loop {
                                if let Some(r) = unless_dropped(rx.recv()).await {
                                    return r;
                                }
                            }
                        })
                        .map_err(text)?;
                        ensure!(got == want, "received {:?} bytes, {:?} expected", got.map(|x| x.len()), want.map(|x| x.len()));
                    }
                    Ok(())
                })
            }),
        ),
    ])?;
    Ok("completed".into())
}

fn sends(s: &[Op]) -> usize {
    s.iter().filter(|o| matches!(o, S(_) | Q(_))).count()
}
fn receives(s: &[Op]) -> usize {
    s.iter().filter(|o| matches!(o, R | Q(_))).count()
}

/// All pairs of scripts of up to `len` operations that complete, up to swapping the sides.
pub fn scripts(alphabet: &[Op], len: usize) -> Vec<[Vec<Op>; 2]> {
    let mut all: Vec<Vec<Op>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..len {
        last = last.iter().flat_map(|s| alphabet.iter().map(move |o| [&s[..], &[*o]].concat())).collect();
        all.extend(last.clone());
    }
    let mut out = Vec::new();
    for (i, a) in all.iter().enumerate() {
        for b in &all[i..] {
            if sends(a) == receives(b) && sends(b) == receives(a) && sends(a) + sends(b) > 0 && completes([a, b]) {
                out.push([a.clone(), b.clone()]);
            }
        }
    }
    out
}

fn name(s: &[Vec<Op>; 2]) -> String {
    format!("{:?} {:?}", s[0], s[1]).replace(", ", "").replace(['[', ']'], "|")
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let quick = tier == Tier::Quick;
    let mut v = crate::procs::scenarios(tier);
    let closing: Vec<[Vec<Op>; 2]> = vec![
        [vec![E], vec![]],
        [vec![S(1), E], vec![R]],
        [vec![S(3), R, E], vec![R, S(1)]],
        [vec![R, E], vec![S(3)]],
        [vec![Broken(3), Broken(1)], vec![]],
        [vec![Broken(3), Broken(3)], vec![R]],
        [vec![Broken(3), Broken(3)], vec![Partial]],
        [vec![Dropped(3)], vec![Partial]],
        [vec![Dropped(2)], vec![Broken(1), Partial]],
        [vec![R, Dropped(2)], vec![S(3), Partial]],
        [vec![S(1), Dropped(2)], vec![R, Partial, E]],
        // Smaller objects than packets
        [vec![S(0), S(0), S(3), S(0), E], vec![R, R, R, R]],
        [vec![Q(0), Q(3), Q(1), E], vec![R, S(3), R, S(0), R, S(1)]],
    ];
    let regular = scripts(&[S(1), S(3), R, Q(2)], 3);
    for (class, list) in [("closing", &closing), ("scripts", &regular)] {
        for s in list {
            for x in RTS {
                for y in RTS {
                    if (x, y) == (Rt::Sync, Rt::Sync) {
                        continue;
                    }
                    for flip in [false, true] {
                        let s = if flip { [s[1].clone(), s[0].clone()] } else { s.clone() };
                        // Blocking operations cannot be dropped
                        if [x, y].iter().zip(&s).any(|(r, s)| *r == Rt::Sync && s.iter().any(|o| matches!(o, Dropped(_)))) {
                            continue;
                        }
                        if flip && s[0] == s[1] {
                            continue;
                        }
                        let n = format!("{class} {x:?}-{y:?} {}", name(&s));
                        let budget = match (quick, s[0].len() + s[1].len()) {
                            (true, 0..=2) => 2,
                            (true, _) => 1,
                            (false, 0..=4) => 3,
                            (false, _) => 2,
                        };
                        v.push(Scenario::new(n, budget, move || threads([x, y], s.clone())));
                    }
                }
            }
            for rt in [Rt::Tokio, Rt::Smol] {
                let s = s.clone();
                let n = format!("{class} one {rt:?} task {}", name(&s));
                let budget = if quick { 2 } else { 4 };
                v.push(Scenario::new(n, budget, move || match rt {
                    Rt::Tokio => one_task::<Tokio>(rt, s.clone()),
                    _ => one_task::<Smol>(rt, s.clone()),
                }));
            }
        }
    }
    for sender in RTS {
        for k in [0, 1, 3] {
            for rt in [Rt::Tokio, Rt::Smol] {
                v.push(Scenario::new(format!("received {rt:?} endpoint, {sender:?} sends {k}"), if quick { 1 } else { 3 }, move || match rt {
                    Rt::Tokio => received::<Tokio>(rt, sender, k),
                    _ => received::<Smol>(rt, sender, k),
                }));
            }
        }
    }
    v
}
