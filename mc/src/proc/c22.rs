//! C22: signals that arrive while processes are spawned and waited for.
use crate::{clean, tokio, Log};
use crossmist::{func, Duplex, Receiver, Sender};
use mc::run::Tier;
use mc::sys::{self, Kind};
use mc::util::pattern;
use mc::{choose, ensure, Scenario};
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicI32, AtomicUsize, Ordering::SeqCst};

static PARENT: AtomicI32 = AtomicI32::new(0);
static THREAD: AtomicI32 = AtomicI32::new(0);
static OWN: AtomicUsize = AtomicUsize::new(0);
static FOREIGN: AtomicUsize = AtomicUsize::new(0);
/// What `strike` sends: the signal, and to whom (see WHOM).
static SIGNAL: AtomicI32 = AtomicI32::new(0);
static TARGET: AtomicUsize = AtomicUsize::new(0);
static SIGNAL_LOG: AtomicI32 = AtomicI32::new(-1);

const WHOM: [&str; 4] = ["the process that makes the call", "the spawning thread", "the spawning process", "both processes"];
// Those whose default is to be ignored, and those that terminate
const SIGNALS: [i32; 8] =
    [libc::SIGWINCH, libc::SIGURG, libc::SIGCONT, libc::SIGUSR1, libc::SIGINT, libc::SIGTERM, libc::SIGALRM, 64];
const HARMLESS: usize = 3;
const DISPOSITIONS: [&str; 5] = ["handled", "handled on the other stack", "blocked", "ignored", "deadly"];

fn getpid() -> i32 {
    sys::raw(libc::SYS_getpid, [0; 6]) as i32
}

extern "C" fn handler(_: i32) {
    if getpid() == PARENT.load(SeqCst) {
        OWN.fetch_add(1, SeqCst);
        let log = SIGNAL_LOG.load(SeqCst);
        if log >= 0 {
            sys::raw(libc::SYS_write, [log as usize, c"s".as_ptr() as usize, 1, 0, 0, 0]);
        }
    } else {
        FOREIGN.fetch_add(1, SeqCst);
    }
}

/// The threads of the executors handle no signals.
fn warm() {
    unsafe {
        let (mut all, mut old) = std::mem::zeroed();
        libc::sigfillset(&mut all);
        libc::pthread_sigmask(libc::SIG_BLOCK, &all, &mut old);
        crate::warm();
        libc::pthread_sigmask(libc::SIG_SETMASK, &old, std::ptr::null_mut());
    }
    THREAD.store(sys::raw(libc::SYS_gettid, [0; 6]) as i32, SeqCst);
}

/// Send the signal: executed before the chosen call, possibly by the child before it calls exec.
fn strike() {
    let signal = SIGNAL.load(SeqCst) as usize;
    let kill = |pid: i32| sys::raw(libc::SYS_kill, [pid as usize, signal, 0, 0, 0, 0]);
    let (me, parent) = (getpid(), PARENT.load(SeqCst));
    match TARGET.load(SeqCst) {
        0 => {
            kill(me);
        }
        1 => {
            sys::raw(libc::SYS_tgkill, [parent as usize, THREAD.load(SeqCst) as usize, signal, 0, 0, 0]);
        }
        2 => {
            kill(parent);
        }
        _ => {
            kill(parent);
            if me != parent {
                kill(me);
            }
        }
    }
}

/// Does the struck process include the child?
fn hits_child(whom: usize, in_child: bool) -> bool {
    in_child && (whom == 0 || whom == 3)
}
fn hits_parent(whom: usize, in_child: bool) -> bool {
    whom != 0 || !in_child
}

fn mask() -> Vec<bool> {
    unsafe {
        let mut m: libc::sigset_t = std::mem::zeroed();
        libc::pthread_sigmask(libc::SIG_BLOCK, std::ptr::null(), &mut m);
        (1..65).map(|s| libc::sigismember(&m, s) == 1).collect()
    }
}
fn dispositions() -> Vec<(usize, i32)> {
    (1..65)
        .map(|s| unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            libc::sigaction(s, std::ptr::null(), &mut a);
            (a.sa_sigaction, a.sa_flags)
        })
        .collect()
}
fn pending(signal: i32) -> bool {
    unsafe {
        let mut m: libc::sigset_t = std::mem::zeroed();
        libc::sigpending(&mut m);
        libc::sigismember(&m, signal) == 1
    }
}

/// A way of reacting to a signal, undone afterwards.
struct Disposition {
    signal: i32,
    action: libc::sigaction,
    mask: libc::sigset_t,
}
impl Disposition {
    fn new(signal: i32, how: usize, flags: i32) -> Disposition {
        unsafe {
            PARENT.store(getpid(), SeqCst);
            OWN.store(0, SeqCst);
            FOREIGN.store(0, SeqCst);
            SIGNAL.store(signal, SeqCst);
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = match how {
                3 => libc::SIG_IGN,
                4 => libc::SIG_DFL,
                _ => handler as usize,
            };
            a.sa_flags = flags | if how == 1 { libc::SA_ONSTACK } else { 0 };
            let mut action = std::mem::zeroed();
            assert_eq!(libc::sigaction(signal, &a, &mut action), 0);
            let mut m: libc::sigset_t = std::mem::zeroed();
            if how == 2 {
                libc::sigaddset(&mut m, signal);
            }
            let mut mask = std::mem::zeroed();
            libc::pthread_sigmask(libc::SIG_BLOCK, &m, &mut mask);
            Disposition { signal, action, mask }
        }
    }
}
impl Drop for Disposition {
    fn drop(&mut self) {
        unsafe {
            // What is pending is handled now
            libc::pthread_sigmask(libc::SIG_SETMASK, &self.mask, std::ptr::null_mut());
            libc::sigaction(self.signal, &self.action, std::ptr::null_mut());
        }
    }
}

/// What the child has inherited: the blocked and the ignored signals.
type Inherited = (u64, u64);

fn status() -> Inherited {
    let t = std::fs::read_to_string("/proc/thread-self/status").unwrap();
    let f = |k: &str| u64::from_str_radix(t.lines().find_map(|l| l.strip_prefix(k)).unwrap().trim(), 16).unwrap();
    (f("SigBlk:"), f("SigIgn:"))
}
fn run_in_child(log: i32) -> Inherited {
    unsafe { libc::write(log, c"#".as_ptr() as *const _, 1) };
    status()
}
#[func]
fn probe(log: i32) -> Inherited {
    run_in_child(log)
}
#[func(tokio(flavor = "current_thread"))]
async fn probe_tokio(log: i32) -> Inherited {
    run_in_child(log)
}
#[func(smol)]
async fn probe_smol(log: i32) -> Inherited {
    run_in_child(log)
}

/// A future whose polls are controlled.
async fn controlled<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    std::future::poll_fn(|cx| sys::controlled(|| f.as_mut().poll(cx))).await
}

const NAMES: [&str; 9] = [
    "blocking", "tokio", "smol", "tokio-in-blocking", "tokio-in-tokio", "tokio-in-smol", "smol-in-blocking", "smol-in-tokio",
    "smol-in-smol",
];

/// Spawning and joining, both controlled. The outer error is that of spawning.
fn go(backend: usize, log: i32) -> Result<Result<Inherited, String>, String> {
    macro_rules! with {
        ($f:ident) => {
            match backend % 3 {
                0 => sys::controlled(|| $f.spawn(log).map(|c| c.join())),
                1 => tokio(controlled(async {
                    match $f.spawn_tokio(log).await {
                        Ok(c) => Ok(c.join().await),
                        Err(e) => Err(e),
                    }
                })),
                _ => async_io::block_on(controlled(async {
                    match $f.spawn_smol(log).await {
                        Ok(c) => Ok(c.join().await),
                        Err(e) => Err(e),
                    }
                })),
            }
        };
    }
    match backend / 3 {
        0 => with!(probe),
        1 => with!(probe_tokio),
        _ => with!(probe_smol),
    }
    .map(|r| r.map_err(|e| e.to_string()))
    .map_err(|e| e.to_string())
}

const CALLS: [Kind; 11] = [
    Kind::Socketpair, Kind::Clone, Kind::Setfd, Kind::Execv, Kind::Sendmsg, Kind::Recvmsg, Kind::Dupfd, Kind::Shutdown, Kind::Waitpid,
    Kind::Waitid, Kind::Kill,
];

/// More calls than are ever made: how many the asynchronous ones make depends on the time.
const MANY: usize = 20;

fn kind(k: i32) -> Option<Kind> {
    CALLS.into_iter().find(|f| *f as u8 as i32 == k)
}

/// Signals at every call of spawning and joining.
fn at_every_call(backend: usize) -> Scenario {
    Scenario::new(format!("arrives/{}", NAMES[backend]), 0, move || {
        warm();
        let log = Log::new();
        let how = choose(4);
        let which = choose(SIGNALS.len());
        let whom = choose(4);
        let signal = SIGNALS[which];
        // Restarting cannot matter, as every call is struck before it blocks
        let d = Disposition::new(signal, how, [0, libc::SA_RESTART][choose(2)]);
        let expected = status();
        let (m, a) = (mask(), dispositions());
        let k = choose(MANY);
        if k == 0 {
            sys::set_plan(-1, 0, &CALLS);
            let r = go(backend, log.fd());
            let (calls, _) = sys::plan_result();
            ensure!(matches!(r, Ok(Ok(_))), "without signals: {r:?}");
            ensure!(calls > 4 && calls < MANY as i64, "{calls} calls were intercepted");
            log.take();
        }
        TARGET.store(whom, SeqCst);
        let in_child;
        let r = clean(|| {
            sys::set_hook(k as i64, strike, &CALLS);
            let r = go(backend, log.fd());
            let fired = sys::plan_result().1;
            sys::clear_plan();
            Ok((r, fired))
        })?;
        let Some(kind) = kind(r.1) else {
            return Ok(format!("~{k} not reached"));
        };
        in_child = matches!(kind, Kind::Setfd | Kind::Execv);
        let r = r.0;
        let ran = log.take().len();
        let what = format!("signal {signal} ({}) sent to {} before {kind:?} (call {k})", DISPOSITIONS[how], WHOM[whom]);
        ensure!(mask() == m, "{what}: the signal mask has changed");
        ensure!(dispositions() == a, "{what}: the reaction to signals has changed");
        let own = (hits_parent(whom, in_child)) as usize;
        match how {
            0 | 1 => ensure!(OWN.load(SeqCst) == own, "{what}: handled {} times by the process", OWN.load(SeqCst)),
            2 => {
                ensure!(OWN.load(SeqCst) == 0, "{what}: handled in spite of that");
                ensure!(pending(signal) == (own == 1), "{what}: not pending, or pending without being sent");
            }
            _ => ensure!(OWN.load(SeqCst) == 0, "{what}: handled in spite of that"),
        }
        ensure!(FOREIGN.load(SeqCst) == 0, "{what}: the handler was executed in the child, in the memory of its parent");
        // Not ignored by the child once it has called exec
        let deadly = hits_child(whom, in_child) && which >= HARMLESS && how < 2;
        match &r {
            Ok(Ok(i)) => {
                ensure!(ran == 1, "{what}: the function was executed {ran} times");
                ensure!(*i == expected, "{what}: blocked and ignored signals of the child: {i:x?} instead of {expected:x?}");
            }
            r => {
                ensure!(deadly, "{what}: {r:x?}");
                ensure!(ran == 0, "{what}: {r:?}, but the function was executed");
            }
        }
        drop(d);
        if how == 2 {
            ensure!(OWN.load(SeqCst) == own, "{what}: lost");
        }
        ensure!(FOREIGN.load(SeqCst) == 0, "{what}: the handler was executed in the child");
        Ok(format!("{kind:?}/{}", matches!(r, Ok(Ok(_)))))
    })
}

/// Spawning fails at every call.
fn failing(backend: usize) -> Scenario {
    Scenario::new(format!("fails/{}", NAMES[backend]), 0, move || {
        warm();
        let log = Log::new();
        let how = choose(4);
        let signal = SIGNALS[choose(SIGNALS.len())];
        let _d = Disposition::new(signal, how, 0);
        let (m, a) = (mask(), dispositions());
        const FAULTS: [Kind; 5] = [Kind::Socketpair, Kind::Clone, Kind::Setfd, Kind::Execv, Kind::Sendmsg];
        let k = choose(MANY);
        sys::set_plan(k as i64, libc::ENOMEM, &FAULTS);
        let r = go(backend, log.fd());
        let (_, fired) = sys::plan_result();
        sys::clear_plan();
        let Some(kind) = kind(fired) else {
            return Ok(format!("~{k} not reached"));
        };
        ensure!(mask() == m, "spawning failed at {kind:?} (call {k}): the signal mask has changed");
        ensure!(dispositions() == a, "spawning failed at {kind:?} (call {k}): the reaction to signals has changed");
        Ok(format!("{kind:?}/{}", matches!(r, Ok(Ok(_)))))
    })
}

// ---- interrupted while it waits ----

/// Send `signal` to the parent `times` times, whenever it sleeps, and wait until it has handled it.
fn poke(signal: i32, times: std::ops::Range<usize>, log: i32) {
    let parent = std::os::unix::process::parent_id() as i32;
    for i in times {
        for patience in 0.. {
            let s = std::fs::read_to_string(format!("/proc/{parent}/stat")).unwrap();
            if s.rsplit(") ").next().unwrap().starts_with('S') || patience > 5000 {
                break;
            }
            std::thread::sleep(std::time::Duration::from_micros(100));
        }
        unsafe {
            libc::kill(parent, signal);
            // The handler of the parent writes to the log
            let mut s: libc::stat = std::mem::zeroed();
            for _ in 0..100_000 {
                libc::fstat(log, &mut s);
                if s.st_size as usize > i {
                    break;
                }
                libc::usleep(50);
            }
        }
    }
}

static AT_EXIT: [AtomicI32; 3] = [AtomicI32::new(0), AtomicI32::new(0), AtomicI32::new(0)];
extern "C" fn poke_at_exit() {
    poke(AT_EXIT[0].load(SeqCst), 0..AT_EXIT[1].load(SeqCst) as usize, AT_EXIT[2].load(SeqCst));
}

#[func]
fn slow(signal: i32, times: usize, log: i32) -> u32 {
    poke(signal, 0..times, log);
    77
}
#[func]
fn slow_exit(signal: i32, times: usize, log: i32) -> u32 {
    for (a, v) in AT_EXIT.iter().zip([signal, times as i32, log]) {
        a.store(v, SeqCst);
    }
    unsafe { libc::atexit(poke_at_exit) };
    78
}
#[func]
fn sends(mut tx: Sender<Vec<u8>>, size: usize, signal: i32, times: usize, log: i32) {
    poke(signal, 0..times, log);
    tx.send(&pattern(2, size)).unwrap();
}
#[func]
fn receives(mut rx: Receiver<Vec<u8>>, signal: i32, times: usize, log: i32) -> Vec<u8> {
    poke(signal, 0..times, log);
    rx.recv().unwrap().unwrap()
}
#[func]
fn answers(mut d: Duplex<Vec<u8>, Vec<u8>>, signal: i32, times: usize, log: i32) {
    poke(signal, 0..times, log);
    let v = d.recv().unwrap().unwrap();
    poke(signal, times..2 * times, log);
    d.send(&v).unwrap();
}

const WAITS: [&str; 11] = [
    "join", "join-exit", "recv", "send", "request", "tokio-join", "tokio-join-exit", "tokio-recv", "smol-join", "smol-join-exit", "smol-recv",
];

fn interrupted(wait: usize, size: usize, times: usize, flags: i32, signal: i32) -> Result<(), String> {
    let e = |e: std::io::Error| format!("{}: {e}", WAITS[wait]);
    let log = Log::new();
    let l = log.fd();
    let d = Disposition::new(signal, 0, flags);
    SIGNAL_LOG.store(l, SeqCst);
    let mut expected = times;
    let r = (|| {
        match wait {
            0 => ensure!(slow.spawn(signal, times, l).map_err(e)?.join().map_err(e)? == 77, "another result"),
            1 => ensure!(slow_exit.spawn(signal, times, l).map_err(e)?.join().map_err(e)? == 78, "another result"),
            2 => {
                let (tx, mut rx) = crossmist::channel().map_err(e)?;
                let c = sends.spawn(tx, size, signal, times, l).map_err(e)?;
                ensure!(rx.recv().map_err(e)? == Some(pattern(2, size)), "another object");
                c.join().map_err(e)?;
            }
            3 => {
                let (mut tx, rx) = crossmist::channel().map_err(e)?;
                let c = receives.spawn(rx, signal, times, l).map_err(e)?;
                tx.send(&pattern(3, size)).map_err(e)?;
                ensure!(c.join().map_err(e)? == pattern(3, size), "another object");
            }
            4 => {
                expected = 2 * times;
                let (mut a, b) = crossmist::duplex().map_err(e)?;
                let c = answers.spawn(b, signal, times, l).map_err(e)?;
                ensure!(a.request(&pattern(3, size)).map_err(e)? == pattern(3, size), "another object");
                c.join().map_err(e)?;
            }
            5 => tokio(async {
                ensure!(slow.spawn_tokio(signal, times, l).await.map_err(e)?.join().await.map_err(e)? == 77, "another result");
                Ok(())
            })?,
            6 => tokio(async {
                ensure!(slow_exit.spawn_tokio(signal, times, l).await.map_err(e)?.join().await.map_err(e)? == 78, "another result");
                Ok(())
            })?,
            7 => tokio(async {
                let (tx, rx) = crossmist::channel().map_err(e)?;
                let c = sends.spawn_tokio(tx, size, signal, times, l).await.map_err(e)?;
                let mut rx = crossmist::tokio::Receiver::try_from(rx).map_err(e)?;
                ensure!(rx.recv().await.map_err(e)? == Some(pattern(2, size)), "another object");
                c.join().await.map_err(e)
            })?,
            8 => async_io::block_on(async {
                ensure!(slow.spawn_smol(signal, times, l).await.map_err(e)?.join().await.map_err(e)? == 77, "another result");
                Ok(())
            })?,
            9 => async_io::block_on(async {
                ensure!(slow_exit.spawn_smol(signal, times, l).await.map_err(e)?.join().await.map_err(e)? == 78, "another result");
                Ok(())
            })?,
            _ => async_io::block_on(async {
                let (tx, rx) = crossmist::channel().map_err(e)?;
                let c = sends.spawn_smol(tx, size, signal, times, l).await.map_err(e)?;
                let mut rx = crossmist::smol::Receiver::try_from(rx).map_err(e)?;
                ensure!(rx.recv().await.map_err(e)? == Some(pattern(2, size)), "another object");
                c.join().await.map_err(e)
            })?,
        }
        Ok(())
    })();
    SIGNAL_LOG.store(-1, SeqCst);
    drop(d);
    r?;
    ensure!(OWN.load(SeqCst) == expected, "{}: handled {} signals of {expected}", WAITS[wait], OWN.load(SeqCst));
    ensure!(FOREIGN.load(SeqCst) == 0, "a handler was executed in the child");
    Ok(())
}

// ---- peers that have gone ----

#[func]
fn leaves(rx: Receiver<Vec<u8>>) {
    drop(rx);
}
#[func]
fn takes(_v: Vec<u8>) {}

const LOSSES: [&str; 10] = [
    "send", "duplex-send", "request", "tokio-send", "smol-send", "send-to-child", "tokio-send-to-child", "spawn", "spawn-tokio", "spawn-smol",
];

/// Send to somebody who is not there (any more). Did it fail?
fn lost(loss: usize, size: usize) -> Result<bool, String> {
    let e = |e: std::io::Error| e.to_string();
    let v = pattern(5, size);
    Ok(match loss {
        0 => {
            let (mut tx, rx) = crossmist::channel::<Vec<u8>>().map_err(e)?;
            drop(rx);
            tx.send(&v).is_err()
        }
        1 => {
            let (mut a, b) = crossmist::duplex::<Vec<u8>, u32>().map_err(e)?;
            drop(b);
            a.send(&v).is_err()
        }
        2 => {
            let (mut a, b) = crossmist::duplex::<Vec<u8>, u32>().map_err(e)?;
            drop(b);
            a.request(&v).is_err()
        }
        3 => tokio(async {
            let (mut tx, rx) = crossmist::tokio::channel::<Vec<u8>>().map_err(e)?;
            drop(rx);
            Ok::<_, String>(tx.send(&v).await.is_err())
        })?,
        4 => async_io::block_on(async {
            let (mut tx, rx) = crossmist::smol::channel::<Vec<u8>>().map_err(e)?;
            drop(rx);
            Ok::<_, String>(tx.send(&v).await.is_err())
        })?,
        5 => {
            let (mut tx, rx) = crossmist::channel::<Vec<u8>>().map_err(e)?;
            let c = leaves.spawn(rx).map_err(e)?;
            // The first ones may arrive
            while tx.send(&v).is_ok() {}
            c.join().map_err(e)?;
            tx.send(&v).is_err()
        }
        6 => tokio(async {
            let (tx, rx) = crossmist::channel::<Vec<u8>>().map_err(e)?;
            let mut tx = crossmist::tokio::Sender::try_from(tx).map_err(e)?;
            let c = leaves.spawn_tokio(rx).await.map_err(e)?;
            while tx.send(&v).await.is_ok() {}
            c.join().await.map_err(e)?;
            Ok::<_, String>(tx.send(&v).await.is_err())
        })?,
        // The child dies before it has received its arguments
        _ => {
            let log = Log::new();
            crate::quiet_env(Some(&format!("0:0:{}", log.fd())));
            let r = match loss {
                7 => takes.spawn(v).and_then(|c| c.join()),
                8 => tokio(async { takes.spawn_tokio(v).await?.join().await }),
                _ => async_io::block_on(async { takes.spawn_smol(v).await?.join().await }),
            };
            crate::quiet_env(None);
            r.is_err()
        }
    })
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let backends: &[usize] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8] } else { &[0, 1, 2, 4, 8] };
    for &b in backends {
        v.push(at_every_call(b));
        v.push(failing(b));
    }
    for loss in 0..LOSSES.len() {
        v.push(Scenario::new(format!("gone/{}", LOSSES[loss]), 0, move || {
            warm();
            let how = choose(5);
            let size = [10, 50_000, 1_000_000][choose(3)];
            let d = Disposition::new(libc::SIGPIPE, how, 0);
            let what = format!("{size} bytes, SIGPIPE {}", DISPOSITIONS[how]);
            let failed = clean(|| lost(loss, size)).map_err(|m| format!("{what}: {m}"))?;
            ensure!(failed, "{what}: not reported");
            ensure!(!pending(libc::SIGPIPE), "{what}: the signal was sent");
            drop(d);
            ensure!(OWN.load(SeqCst) == 0, "{what}: the signal was sent");
            Ok(String::new())
        }));
    }
    for wait in 0..WAITS.len() {
        v.push(Scenario::new(format!("waits/{}", WAITS[wait]), 0, move || {
            warm();
            let signal = SIGNALS[choose(SIGNALS.len())];
            let flags = [0, libc::SA_RESTART][choose(2)];
            let times = choose(if thorough { 5 } else { 3 });
            let size = if matches!(wait, 2 | 3 | 4 | 7 | 10) { [10, 100_000, 1_000_000][choose(3)] } else { 0 };
            clean(|| interrupted(wait, size, times, flags, signal))
                .map_err(|m| format!("signal {signal}, {times} times, flags {flags:x}, {size} bytes: {m}"))?;
            Ok(String::new())
        }));
    }
    v
}
