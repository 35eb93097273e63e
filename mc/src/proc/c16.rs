//! C16: spawns that fail or are abandoned.
use crate::{clean, quiet_env, tokio, warm, Log};
use crossmist::func;
use mc::files::dup;
use mc::run::Tier;
use mc::sched::{self, Body};
use mc::sys::{self, Call, Kind};
use mc::util::{fd_flags, pattern};
use mc::{choose, deviate, ensure, Scenario};
use std::fs::File;
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::Ordering::SeqCst;
use std::task::{Context, Poll};
use std::time::Duration;

type Args = (Vec<u8>, Vec<File>);

fn run_in_child(log: i32, args: Args) -> (usize, usize) {
    let b = [b'#'];
    unsafe { libc::write(log, b.as_ptr() as *const _, 1) };
    (args.0.len(), args.1.len())
}
#[func]
fn target(log: i32, args: Args) -> (usize, usize) {
    run_in_child(log, args)
}
#[func(tokio(flavor = "current_thread"))]
async fn target_tokio(log: i32, args: Args) -> (usize, usize) {
    run_in_child(log, args)
}
#[func(smol)]
async fn target_smol(log: i32, args: Args) -> (usize, usize) {
    run_in_child(log, args)
}

/// Bytes and files in the arguments.
// The last ones do not fit in the buffer of a socket
const SIZES: [(usize, usize); 7] = [(0, 0), (10, 3), (16_300, 1), (100_000, 0), (50_000, 20), (5, 300), (700_000, 1)];

fn args(size: usize) -> Args {
    (pattern(1, SIZES[size].0), (0..SIZES[size].1).map(dup).collect())
}

type Joined = Result<(usize, usize), String>;

/// Spawning is controlled, joining is not. Err: spawning failed.
fn go(backend: usize, log: &Log, a: Args) -> Result<Joined, String> {
    let l = log.fd();
    macro_rules! with {
        ($f:ident) => {
            match backend % 3 {
                0 => sys::controlled(|| $f.spawn(l, a)).map(|c| c.join()),
                1 => tokio(async {
                    let s = sys::controlled(|| $f.spawn_tokio(l, a));
                    match controlled(s).await {
                        Ok(c) => Ok(c.join().await),
                        Err(e) => Err(e),
                    }
                }),
                _ => async_io::block_on(async {
                    let s = sys::controlled(|| $f.spawn_smol(l, a));
                    match controlled(s).await {
                        Ok(c) => Ok(c.join().await),
                        Err(e) => Err(e),
                    }
                }),
            }
        };
    }
    match backend / 3 {
        0 => with!(target),
        1 => with!(target_tokio),
        _ => with!(target_smol),
    }
    .map(|r| r.map_err(|e| e.to_string()))
    .map_err(|e| e.to_string())
}

/// A future whose polls are controlled.
async fn controlled<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    std::future::poll_fn(|cx| sys::controlled(|| f.as_mut().poll(cx))).await
}

/// What is required after an attempt to spawn.
fn judge(r: &Result<Joined, String>, size: usize, log: &Log) -> Result<(), String> {
    let ran = log.take();
    let ran = ran.iter().filter(|b| **b == b'#').count();
    match r {
        Err(_) => ensure!(ran == 0, "spawning reported an error, but the function was executed"),
        Ok(Ok(v)) => {
            ensure!(*v == SIZES[size], "wrong arguments");
            ensure!(ran == 1, "the function was executed {ran} times");
        }
        Ok(Err(_)) => {}
    }
    Ok(())
}

/// Later spawns work.
fn works(backend: usize) -> Result<(), String> {
    let log = Log::new();
    let r = go(backend, &log, args(1));
    ensure!(matches!(r, Ok(Ok(v)) if v == SIZES[1]), "the next spawn does not work: {r:?}");
    judge(&r, 1, &log)
}

const FAULTS: [Kind; 8] =
    [Kind::Socketpair, Kind::Clone, Kind::Setfd, Kind::Execv, Kind::Sendmsg, Kind::Recvmsg, Kind::Dupfd, Kind::Shutdown];

fn errnos(k: Kind) -> &'static [i32] {
    match k {
        Kind::Socketpair => &[libc::EMFILE, libc::ENFILE, libc::ENOMEM],
        Kind::Clone => &[libc::EAGAIN, libc::ENOMEM],
        Kind::Setfd => &[libc::EBADF],
        Kind::Execv => &[libc::EACCES, libc::ENOENT, libc::ENOMEM, libc::EAGAIN, libc::ETXTBSY],
        Kind::Sendmsg => &[libc::EPIPE, libc::ECONNRESET, libc::ENOBUFS, libc::ENOMEM, libc::ETOOMANYREFS],
        Kind::Recvmsg => &[libc::ENOMEM],
        Kind::Dupfd => &[libc::EMFILE],
        _ => &[libc::ENOBUFS],
    }
}

/// Interruptions of the cleanup.
fn interrupt_cleanup() {
    sys::set_policy(Box::new(|c: &Call| match c.kind {
        Kind::Waitpid | Kind::Waitid => [0, libc::EINTR][deviate(2)],
        _ => 0,
    }));
}

/// Leave room for exactly `free` new descriptors.
struct Limit(libc::rlimit);
fn limit(free: usize) -> Limit {
    unsafe {
        let mut r: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut r);
        let (mut left, mut n) = (free, 0);
        while left > 0 || fd_flags(n) >= 0 {
            if fd_flags(n) < 0 {
                left -= 1;
            }
            n += 1;
        }
        let low = libc::rlimit { rlim_cur: n as u64, rlim_max: r.rlim_max };
        assert_eq!(libc::setrlimit(libc::RLIMIT_NOFILE, &low), 0);
        Limit(r)
    }
}
impl Drop for Limit {
    fn drop(&mut self) {
        unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &self.0) };
    }
}

const NAMES: [&str; 9] = [
    "blocking", "tokio", "smol", "tokio-in-blocking", "tokio-in-tokio", "tokio-in-smol", "smol-in-blocking", "smol-in-tokio",
    "smol-in-smol",
];

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let backends: &[usize] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8] } else { &[0, 1, 2] };
    for &backend in backends {
        for size in 0..6 {
            // Every call fails
            v.push(Scenario::new(format!("fault/{}/{size}", NAMES[backend]), if thorough { 3 } else { 2 }, move || {
                warm();
                let log = Log::new();
                sys::set_plan(-1, 0, &FAULTS);
                let r = go(backend, &log, args(size));
                let (calls, _) = sys::plan_result();
                ensure!(matches!(r, Ok(Ok(_))), "spawning without failures: {r:?}");
                ensure!(calls > 4, "the calls are not intercepted");
                judge(&r, size, &log)?;
                let k = choose(calls as usize);
                // Which call is it?
                sys::set_plan(k as i64, 0, &FAULTS);
                let _ = go(backend, &log, args(size));
                log.take();
                let (_, kind) = sys::plan_result();
                let Some(kind) = FAULTS.into_iter().find(|f| *f as u8 as i32 == kind) else {
                    return Ok(format!("~{k} not reached"));
                };
                let e = errnos(kind);
                let e = e[choose(e.len())];
                let a = args(size);
                clean_but(SIZES[size].1, || {
                    sys::set_plan(k as i64, e, &FAULTS);
                    interrupt_cleanup();
                    let r = go(backend, &log, a);
                    sys::clear_policy();
                    sys::clear_plan();
                    judge(&r, size, &log)?;
                    ensure!(!matches!(r, Ok(Err(_))), "only joining reported it: {r:?}");
                    Ok(())
                })
                .map_err(|m| format!("{kind:?} (call {k} of {calls}) failed with {e}: {m}"))?;
                works(backend)?;
                Ok(format!("{kind:?} {k} {e}"))
            }));
        }
    }
    // Too few descriptors
    for &backend in backends {
        for size in [0, 1, 3, 4, 5] {
            v.push(Scenario::new(format!("limit/{}/{size}", NAMES[backend]), 0, move || {
                warm();
                let log = Log::new();
                let _ = works(backend);
                let free = choose(16);
                let a = args(size);
                let what = clean_but(SIZES[size].1, || {
                    let l = limit(free);
                    // The executor itself needs descriptors
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| go(backend, &log, a)));
                    drop(l);
                    let Ok(r) = r else { return Ok("~no runtime".to_string()) };
                    judge(&r, size, &log)?;
                    if free == 0 && backend == 0 {
                        ensure!(r.is_err(), "spawned a child without a descriptor for the channel");
                    }
                    Ok(format!("{} {}", r.is_err(), matches!(r, Ok(Err(_)))))
                })
                .map_err(|m| format!("{free} free descriptors: {m}"))?;
                works(backend)?;
                Ok(if what.starts_with('~') { what } else { format!("{free} {what}") })
            }));
        }
    }
    // The child dies before it has received everything
    for &backend in backends {
        for size in 0..SIZES.len() {
            v.push(Scenario::new(format!("dies/{}/{size}", NAMES[backend]), 0, move || {
                warm();
                let log = Log::new();
                quiet_env(Some(&format!("-1:0:{}", log.fd())));
                let r = go(backend, &log, args(size));
                quiet_env(None);
                let base = log.peek();
                judge(&r, size, &log)?;
                ensure!(matches!(r, Ok(Ok(_))), "spawning: {r:?}");
                // Up to the execution of the function
                let calls = base.iter().take_while(|b| **b != b'#').filter(|b| b.is_ascii_uppercase()).count();
                let k = choose(calls);
                let how = choose(4);
                let a = args(size);
                clean_but(SIZES[size].1, || {
                    quiet_env(Some(&format!("{k}:{how}:{}", log.fd())));
                    let r = go(backend, &log, a);
                    quiet_env(None);
                    ensure!(log.peek().iter().all(|b| *b != b'#'), "the function was executed");
                    log.take();
                    ensure!(!matches!(r, Ok(Ok(_))), "the child died, but joining succeeded");
                    Ok(())
                })
                .map_err(|m| format!("death at call {k} of {calls}: {m}"))?;
                works(backend)?;
                Ok(format!("{k} {how}"))
            }));
        }
    }
    // Abandoned
    for &backend in backends.iter().filter(|b| **b % 3 != 0) {
        for size in 0..SIZES.len() {
            v.push(Scenario::new(format!("abandoned/{}/{size}", NAMES[backend]), if thorough { 2 } else { 1 }, move || {
                warm();
                let log = Log::new();
                // The child may hang at any of its calls, or not at all
                let hang = choose(4);
                let polls = choose(if thorough { 12 } else { 5 });
                let nap = choose(2) as u64;
                let a = args(size);
                let mut done = false;
                clean_but(SIZES[size].1, || {
                    if hang > 0 {
                        quiet_env(Some(&format!("{}:4:{}", hang - 1, log.fd())));
                    }
                    if size < 6 {
                        // The large ones may or may not complete, so the number of calls varies
                        interrupt_cleanup();
                    }
                    let l = log.fd();
                    macro_rules! with {
                        ($f:ident, $spawn:ident, $sleep:expr) => {{
                            async {
                                let mut f = Some(Box::pin(sys::controlled(|| $f.$spawn(l, a))));
                                for _ in 0..polls {
                                    let r = std::future::poll_fn(|cx: &mut Context| {
                                        Poll::Ready(sys::controlled(|| f.as_mut().unwrap().as_mut().poll(cx)))
                                    });
                                    if let Poll::Ready(r) = r.await {
                                        f = None;
                                        done = true;
                                        match r {
                                            Ok(c) => {
                                                if hang > 0 {
                                                    c.get_kill_handle().kill().map_err(|e| e.to_string())?;
                                                }
                                                let _ = c.join().await;
                                            }
                                            Err(e) => return Err(format!("spawning failed: {e}")),
                                        }
                                        break;
                                    }
                                    // Let the reactor see what has happened
                                    $sleep(Duration::from_millis(nap)).await;
                                }
                                sys::controlled(|| drop(f));
                                Ok::<(), String>(())
                            }
                        }};
                    }
                    let r = match backend {
                        1 => tokio(with!(target, spawn_tokio, tokio::time::sleep)),
                        2 => async_io::block_on(with!(target, spawn_smol, async_io::Timer::after)),
                        4 => tokio(with!(target_tokio, spawn_tokio, tokio::time::sleep)),
                        5 => async_io::block_on(with!(target_tokio, spawn_smol, async_io::Timer::after)),
                        7 => tokio(with!(target_smol, spawn_tokio, tokio::time::sleep)),
                        _ => async_io::block_on(with!(target_smol, spawn_smol, async_io::Timer::after)),
                    };
                    sys::clear_policy();
                    quiet_env(None);
                    r
                })
                .map_err(|m| format!("abandoned after {polls} polls: {m}"))?;
                log.take();
                works(backend)?;
                // When the child reads is not determined
                Ok(format!("{hang} {polls} {nap}"))
            }));
        }
    }
    // One of two concurrent spawns fails
    v.push(Scenario::new("concurrent", if thorough { 3 } else { 2 }, move || {
        warm();
        let logs = [Log::new(), Log::new()];
        let at = choose(28);
        let kinds = [Kind::Socketpair, Kind::Clone, Kind::Setfd, Kind::Execv, Kind::Sendmsg];
        let seen = std::sync::Mutex::new(Vec::new());
        clean(|| {
            sys::set_plan(at as i64, libc::ENOMEM, &kinds);
            let actors: Vec<(&'static str, Body)> = (0..2usize)
                .map(|i| {
                    let (log, seen) = (&logs[i], &seen);
                    let a = args(i);
                    let b: Body = Box::new(move || {
                        let r = target.spawn(log.fd(), a).map_err(|e| e.to_string());
                        let r = sys::uncontrolled(|| r.map(|c| c.join().map_err(|e| e.to_string())));
                        judge(&r, i, log)?;
                        ensure!(!matches!(r, Ok(Err(_))), "only joining reported the failure");
                        seen.lock().unwrap().push(r.is_err());
                        Ok(())
                    });
                    (["one", "two"][i], b)
                })
                .collect();
            sys::SETTLE_KILL.store(true, SeqCst);
            sched::EAGER.store(true, SeqCst);
            sched::run(actors)?;
            sched::EAGER.store(false, SeqCst);
            let (_, fired) = sys::plan_result();
            sys::clear_plan();
            let failed = seen.lock().unwrap().iter().filter(|b| **b).count();
            ensure!(failed <= (fired >= 0) as usize, "{failed} spawns failed because of one failure");
            Ok(())
        })?;
        let (_, fired) = sys::plan_result();
        Ok(if fired < 0 { format!("~{at}") } else { format!("{at}") })
    }));
    v
}

/// Like `clean`, where `f` also closes `n` descriptors that exist before.
fn clean_but<R>(n: usize, f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    let before = crate::low_fds().len();
    let r = f()?;
    ensure!(!sys::has_children(), "a child was not reaped");
    let after = crate::low_fds().len();
    ensure!(after + n == before, "{} descriptors leaked", (after + n) as i64 - before as i64);
    Ok(r)
}
