//! C12: what joining reports, for every way a child may end.
use crate::{clean, quiet_env, tokio, warm, Log};
use crossmist::{func, Deserializer, NonTrivialObject, Serializer};
use mc::files::dup;
use mc::run::Tier;
use mc::util::pattern;
use mc::{choose, ensure, sys, Scenario};
use std::fs::File;
use std::io::Result as IoResult;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Return,
    ThreadPanics,
    ChannelClosed,
    ExitZero,
    Panic,
    PanicInDrop,
    Status(u8),
    Signal(u8),
}
use How::*;

fn encode(h: How) -> u16 {
    match h {
        Return => 0,
        ThreadPanics => 1,
        ChannelClosed => 2,
        ExitZero => 3,
        Panic => 4,
        PanicInDrop => 5,
        Status(s) => 0x100 | s as u16,
        Signal(s) => 0x200 | s as u16,
    }
}

struct Bomb;
impl Drop for Bomb {
    fn drop(&mut self) {
        panic!("while unwinding")
    }
}

/// What the child does before it returns.
fn behave(h: u16) {
    match h {
        0 => {}
        1 => {
            let _ = std::thread::spawn(|| panic!("another thread")).join();
        }
        // Endpoints of its own come and go
        2 => {
            let (mut tx, rx) = crossmist::channel::<u8>().unwrap();
            drop(rx);
            let _ = tx.send(&1);
        }
        3 => std::process::exit(0),
        4 => panic!("the child panics"),
        5 => {
            let _b = Bomb;
            panic!("the child panics and panics again")
        }
        s if s & 0x100 != 0 => std::process::exit((s & 0xff) as i32),
        s => unsafe {
            let no_core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &no_core);
            libc::signal((s & 0xff) as i32, libc::SIG_DFL);
            libc::raise((s & 0xff) as i32);
            loop {
                libc::pause();
            }
        },
    }
}

/// An object that cannot be received.
pub struct Refused(File);
unsafe impl NonTrivialObject for Refused {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        s.serialize(&self.0)
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> IoResult<Self> {
        d.deserialize::<File>()?;
        Err(std::io::Error::other("refused"))
    }
}
/// An object that cannot be sent.
pub struct Unsendable(#[allow(dead_code)] u8);
unsafe impl NonTrivialObject for Unsendable {
    fn serialize_self_non_trivial<'a>(&'a self, _: &mut Serializer<'a>) {
        panic!("unsendable")
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> IoResult<Self> {
        Ok(Unsendable(d.deserialize()?))
    }
}
#[derive(crossmist::Object, Debug, PartialEq)]
pub struct Zst;

macro_rules! children {
    ($($name:ident: $t:ty = $v:expr;)*) => {
        mod blocking { use super::*; $(#[func] pub fn $name(h: u16, _pad: Vec<u8>) -> $t { behave(h); $v })* }
        mod on_tokio { use super::*; $(#[func(tokio(flavor = "current_thread"))] pub async fn $name(h: u16, _pad: Vec<u8>) -> $t {
            tokio::task::yield_now().await; behave(h); $v })* }
        mod on_smol { use super::*; $(#[func(smol)] pub async fn $name(h: u16, _pad: Vec<u8>) -> $t {
            async_io::Timer::after(std::time::Duration::from_micros(1)).await; behave(h); $v })* }
        /// Run a child and see whether joining yields its value. Err: spawning failed.
        fn go(value: &str, child: usize, parent: usize, h: u16, pad: usize) -> Result<Result<(), String>, String> {
            let p = vec![1u8; pad];
            $(if value == stringify!($name) {
                let r = match (child, parent) {
                    (0, 0) => blocking::$name.spawn(h, p).map(|c| { late(c.id()); c.join() }),
                    (0, 1) => tokio(async { match blocking::$name.spawn_tokio(h, p).await { Ok(c) => { late(c.id()); Ok(c.join().await) }, Err(e) => Err(e) } }),
                    (0, _) => async_io::block_on(async { match blocking::$name.spawn_smol(h, p).await { Ok(c) => { late(c.id()); Ok(c.join().await) }, Err(e) => Err(e) } }),
                    (1, 0) => on_tokio::$name.spawn(h, p).map(|c| { late(c.id()); c.join() }),
                    (1, 1) => tokio(async { match on_tokio::$name.spawn_tokio(h, p).await { Ok(c) => { late(c.id()); Ok(c.join().await) }, Err(e) => Err(e) } }),
                    (1, _) => async_io::block_on(async { match on_tokio::$name.spawn_smol(h, p).await { Ok(c) => { late(c.id()); Ok(c.join().await) }, Err(e) => Err(e) } }),
                    (_, 0) => on_smol::$name.spawn(h, p).map(|c| { late(c.id()); c.join() }),
                    (_, 1) => tokio(async { match on_smol::$name.spawn_tokio(h, p).await { Ok(c) => { late(c.id()); Ok(c.join().await) }, Err(e) => Err(e) } }),
                    (_, _) => async_io::block_on(async { match on_smol::$name.spawn_smol(h, p).await { Ok(c) => { late(c.id()); Ok(c.join().await) }, Err(e) => Err(e) } }),
                };
                return match r {
                    Err(e) => Err(e.to_string()),
                    Ok(Err(e)) => Ok(Err(e.to_string())),
                    Ok(Ok(v)) => Ok(if v.right() { Ok(()) } else { Err("WRONG VALUE".into()) }),
                };
            })*
            unreachable!()
        }
    };
}
static LATE: AtomicBool = AtomicBool::new(false);
/// Wait until the child has ended, if that is wanted.
fn late(pid: impl TryInto<i32>) {
    let Ok(pid) = pid.try_into() else { panic!("not a process ID") };
    for _ in 0..LATE.load(Relaxed) as usize * 20_000 {
        if sys::process_state(pid) == sys::ProcState::Zombie {
            return;
        }
        std::thread::sleep(std::time::Duration::from_micros(50));
    }
}

children! {
    unit: () = ();
    byte: u8 = 7;
    text: String = "returned".into();
    wide: Vec<u8> = pattern(5, 40_000);
    huge: Vec<u8> = pattern(6, 1_000_000);
    files: (File, Vec<u8>, File) = (dup(1), pattern(7, 20_000), dup(2));
    failed: Result<u8, String> = Err("an error".into());
    empty: Zst = Zst;
    refused: Refused = Refused(dup(3));
    unsendable: Unsendable = Unsendable(0);
}
const VALUES: [&str; 8] = ["unit", "byte", "text", "wide", "huge", "files", "failed", "empty"];

trait Right {
    fn right(&self) -> bool;
}
macro_rules! right {
    ($($t:ty: |$x:ident| $e:expr;)*) => { $(impl Right for $t { fn right(&self) -> bool { let $x = self; $e } })* };
}
right! {
    (): |_x| true;
    u8: |x| *x == 7;
    String: |x| x == "returned";
    Vec<u8>: |x| *x == pattern(5, 40_000) || *x == pattern(6, 1_000_000);
    (File, Vec<u8>, File): |x| x.0.as_raw_fd() != x.2.as_raw_fd() && x.1 == pattern(7, 20_000) && contents(&x.0) == 1 && contents(&x.2) == 2;
    Result<u8, String>: |x| *x == Err("an error".into());
    Zst: |_x| true;
    Refused: |_x| false;
    Unsendable: |_x| false;
}
/// The pool of the child is another one: compare contents.
fn contents(f: &File) -> u8 {
    use std::os::unix::fs::FileExt;
    use std::os::fd::AsFd;
    let f = File::open(format!("/proc/self/fd/{}", f.as_fd().as_raw_fd())).unwrap();
    let mut b = [0; 16];
    f.read_exact_at(&mut b, 0).unwrap();
    if b == [b[0]; 16] { b[0] } else { 0 }
}

fn expect(value: &str, h: How) -> bool {
    match h {
        Return | ThreadPanics | ChannelClosed => !["refused", "unsendable"].contains(&value),
        ExitZero | Status(0) => value == "unit",
        _ => false,
    }
}

fn judge(value: &str, want: bool, r: Result<(), String>, what: &str) -> Result<(), String> {
    match r {
        Ok(()) if want => Ok(()),
        Ok(()) => Err(format!("{value}: {what}, but joining reported success")),
        Err(e) if e == "WRONG VALUE" => Err(format!("{value}: {what}: joining yielded another value")),
        Err(e) if want => Err(format!("{value}: {what}, but joining failed: {e}")),
        Err(_) => Ok(()),
    }
}

const BACKENDS: [&str; 3] = ["blocking", "tokio", "smol"];

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    let hows = [Return, ThreadPanics, ChannelClosed, ExitZero, Panic, PanicInDrop, Status(3), Signal(9)];
    for value in VALUES.into_iter().chain(["refused", "unsendable"]) {
        for child in 0..3 {
            for parent in 0..3 {
                if !thorough && child + parent > 0 && value.len() % 2 == (child + parent) % 2 && child != parent {
                    continue;
                }
                v.push(Scenario::new(format!("{value}/{}/{}", BACKENDS[child], BACKENDS[parent]), 0, move || {
                    warm();
                    let h = hows[choose(hows.len())];
                    let pad = [0, 50_000][choose(2)];
                    // Joined while the child is running, or after it has ended
                    let end = !["huge", "wide", "files"].contains(&value) && choose(2) == 1;
                    clean(|| {
                        LATE.store(end, Relaxed);
                        let r = go(value, child, parent, encode(h), pad).map_err(|e| format!("spawn: {e}"))?;
                        judge(value, expect(value, h), r, &format!("{h:?}"))
                    })?;
                    Ok(format!("{h:?} {pad} {end}"))
                }));
            }
        }
    }
    // Every exit status and every signal that terminates
    for value in ["unit", "byte"] {
        for part in 0..8usize {
            v.push(Scenario::new(format!("status/{value}/{part}"), 0, move || {
                let n = part * 32 + choose(32);
                clean(|| {
                    let r = go(value, 0, 0, encode(Status(n as u8)), 0).map_err(|e| format!("spawn: {e}"))?;
                    judge(value, expect(value, Status(n as u8)), r, &format!("exit with status {n}"))
                })?;
                Ok(format!("{n}"))
            }));
        }
        v.push(Scenario::new(format!("signal/{value}"), 0, move || {
            let signals: Vec<u8> = (1..32).chain([34, 64]).filter(|s| ![17, 18, 19, 20, 21, 22, 23, 28].contains(s)).collect();
            let s = signals[choose(signals.len())];
            clean(|| {
                let r = go(value, 0, choose(3), encode(Signal(s)), 0).map_err(|e| format!("spawn: {e}"))?;
                judge(value, false, r, &format!("killed by signal {s}"))
            })?;
            Ok(format!("{s}"))
        }));
    }
    // Dying at every system call crossmist makes in the child
    for value in VALUES {
        for child in 0..3 {
            for parent in 0..3 {
                if !thorough && (child != parent || value == "huge") {
                    continue;
                }
                v.push(Scenario::new(format!("die/{value}/{}/{}", BACKENDS[child], BACKENDS[parent]), 0, move || {
                    warm();
                    let big = choose(2);
                    let pad = [0, 50_000][big];
                    // How many calls are there?
                    let log = Log::new();
                    LATE.store(false, Relaxed);
                    quiet_env(Some(&format!("-1:0:{}", log.fd())));
                    let r = clean(|| go(value, child, parent, 0, pad));
                    quiet_env(None);
                    judge(value, true, r.map_err(|e| format!("spawn: {e}"))?, "returned")?;
                    let base = log.take();
                    let calls = base.iter().filter(|b| b.is_ascii_uppercase()).count();
                    ensure!(calls > 1, "the calls of the child are not observed");
                    let done = |l: &[u8], kind: sys::Kind| l.iter().filter(|b| **b == b'a' + kind as u8).count();
                    let sent = |l: &[u8]| done(l, sys::Kind::Sendmsg);
                    let k = choose(calls);
                    let how = choose(4);
                    let end = !["huge", "wide", "files"].contains(&value) && choose(2) == 1;
                    LATE.store(end, Relaxed);
                    quiet_env(Some(&format!("{k}:{how}:{}", log.fd())));
                    let r = clean(|| Ok(go(value, child, parent, 0, pad)));
                    quiet_env(None);
                    let got = log.take();
                    let delivered = value == "unit" || sent(&got) == sent(&base);
                    let what = format!("{} at call {k} of {calls}", ["killed", "exit(0)", "exit(3)", "aborted"][how]);
                    match r? {
                        // The child died before it had received its arguments
                        Err(e) => ensure!(
                            done(&got, sys::Kind::Recvmsg) < done(&base, sys::Kind::Recvmsg),
                            "{value}: {what}, having received everything, but spawning failed: {e}"
                        ),
                        Ok(r) => judge(value, how == 1 && delivered, r, &what)?,
                    }
                    Ok(format!("{pad} {k} {how} {end}"))
                }));
            }
        }
    }
    // Two children joined in either order, one of them failing
    for value in ["unit", "wide", "files"] {
        v.push(Scenario::new(format!("two/{value}"), 0, move || {
            warm();
            let (a, b) = (hows[choose(hows.len())], hows[choose(hows.len())]);
            let swap = choose(2) == 1;
            clean(|| {
                macro_rules! two {
                    ($f:ident) => {{
                        let x = blocking::$f.spawn(encode(a), vec![]).map_err(|e| e.to_string())?;
                        let y = blocking::$f.spawn(encode(b), vec![]).map_err(|e| e.to_string())?;
                        ensure!(x.id() != y.id(), "the same process");
                        let (x, y) = if swap {
                            let y = y.join();
                            (x.join(), y)
                        } else {
                            (x.join(), y.join())
                        };
                        for (r, h) in [(x, a), (y, b)] {
                            let r = r.map_err(|e| e.to_string()).and_then(|v| if v.right() { Ok(()) } else { Err("WRONG VALUE".into()) });
                            judge(value, expect(value, h), r, &format!("{h:?}"))?;
                        }
                    }};
                }
                match value {
                    "unit" => two!(unit),
                    "wide" => two!(wide),
                    _ => two!(files),
                }
                Ok(())
            })?;
            Ok(format!("{a:?} {b:?} {swap}"))
        }));
    }
    v
}
