//! C13: kill handles, in every interleaving with joining and with the end of the child.
use crate::warm;
use crossmist::{func, KillHandle};
use mc::run::Tier;
use mc::sched::{self, Body};
use mc::sys::{self, process_state, ProcState};
use mc::{choose, ensure, Scenario};
use std::fs::File;
use std::future::Future;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::pin::Pin;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::task::{Context, Poll};

fn pipe() -> (File, File) {
    let mut p = [0; 2];
    unsafe {
        assert_eq!(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC), 0);
        (File::from_raw_fd(p[0]), File::from_raw_fd(p[1]))
    }
}

/// Wait for the parent to write a byte (or to disappear).
fn await_go(mut go: &File) {
    let _ = go.read(&mut [0]);
}

static LINGER: Mutex<Option<(File, File)>> = Mutex::new(None);
extern "C" fn linger_on() {
    let (mut ready, go) = LINGER.lock().unwrap().take().unwrap();
    let _ = ready.write_all(b"r");
    await_go(&go);
}

/// The sockets of a child: its channel. Closing them leaves the child running.
fn close_channel() {
    for fd in 3..100 {
        unsafe {
            let mut st: libc::stat = std::mem::zeroed();
            if libc::fstat(fd, &mut st) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFSOCK {
                libc::shutdown(fd, libc::SHUT_RDWR);
            }
        }
    }
}

/// How the child behaves: 0 waits, then returns; 1 has returned, but does not exit before it is told
/// to; 2 closes its channel and waits; 3 ignores signals and waits.
fn child(kind: u8, ready: File, go: File) -> u8 {
    match kind {
        1 => {
            *LINGER.lock().unwrap() = Some((ready, go));
            unsafe { libc::atexit(linger_on) };
        }
        k => {
            if k == 2 {
                close_channel();
            }
            if k == 3 {
                for s in 1..32 {
                    unsafe { libc::signal(s, libc::SIG_IGN) };
                }
            }
            (&ready).write_all(b"r").unwrap();
            await_go(&go);
            if k == 2 {
                unsafe { libc::_exit(0) };
            }
        }
    }
    7
}
#[func]
fn target(kind: u8, ready: File, go: File) -> u8 {
    child(kind, ready, go)
}
#[func]
fn target_unit(kind: u8, ready: File, go: File) {
    child(kind, ready, go);
}

struct World {
    pid: i32,
    /// The child has ended because it was told to, and no kill had been started before.
    ended: AtomicBool,
    exited: AtomicBool,
    /// Kills that have been started
    kills: AtomicUsize,
    /// A kill hit the running child
    hit: AtomicBool,
}

fn kill(w: &World, k: &KillHandle) -> Result<(), String> {
    let gone = process_state(w.pid) == ProcState::Gone;
    let running = process_state(w.pid) == ProcState::Running;
    w.kills.fetch_add(1, SeqCst);
    let r = k.kill();
    let now = process_state(w.pid);
    if gone {
        ensure!(r.is_err(), "killing a reaped child succeeded");
        return Ok(());
    }
    if running && now != ProcState::Gone && !w.exited.load(SeqCst) {
        ensure!(r.is_ok(), "killing a running child failed: {r:?}");
        sys::settle(w.pid);
        w.hit.store(true, SeqCst);
    }
    if now != ProcState::Gone && r.is_ok() {
        sys::settle(w.pid);
        ensure!(process_state(w.pid) != ProcState::Running, "the child goes on after being killed");
    }
    Ok(())
}

fn joined(w: &World, r: std::io::Result<Option<u8>>, kind: u8, unit: bool) -> Result<(), String> {
    ensure!(process_state(w.pid) == ProcState::Gone, "joining did not reap the child");
    let ends_well = kind != 2 || unit;
    match r {
        Ok(v) => {
            ensure!(!w.hit.load(SeqCst), "joining reported success, but the child was killed");
            ensure!(ends_well, "joining reported success without a value");
            ensure!(unit || v == Some(7), "another value");
        }
        Err(e) => {
            ensure!(!(w.ended.load(SeqCst) && ends_well), "the child ended regularly, but joining failed: {e}");
        }
    }
    Ok(())
}

type Join = Box<dyn FnOnce() -> std::io::Result<Option<u8>> + Send>;

/// Start a child. Returns (id, kill handles, join).
fn start(backend: usize, unit: bool, kind: u8, ready: File, go: File, n: usize) -> Result<(i32, Vec<KillHandle>, Join), String> {
    macro_rules! sync {
        ($f:ident, $map:expr) => {{
            let c = $f.spawn(kind, ready, go).map_err(|e| e.to_string())?;
            let k = (0..n).map(|_| c.get_kill_handle()).collect();
            (c.id() as i32, k, Box::new(move || c.join().map($map)) as Join)
        }};
    }
    macro_rules! toki {
        ($f:ident, $map:expr) => {{
            let rt = tokio::runtime::Builder::new_current_thread().enable_io().build().unwrap();
            let c = rt.block_on($f.spawn_tokio(kind, ready, go)).map_err(|e| e.to_string())?;
            let k = (0..n).map(|_| c.get_kill_handle()).collect();
            (c.id() as i32, k, Box::new(move || rt.block_on(c.join()).map($map)) as Join)
        }};
    }
    Ok(match (backend, unit) {
        (0, false) => sync!(target, Some),
        (0, true) => sync!(target_unit, |_| None),
        (_, false) => toki!(target, Some),
        (_, true) => toki!(target_unit, |_| None),
    })
}

pub fn scenarios(tier: Tier) -> Vec<Scenario> {
    let thorough = tier == Tier::Thorough;
    let mut v = Vec::new();
    // (joining, exiting, kills per killer)
    let mut teams: Vec<(bool, bool, Vec<usize>)> = vec![
        (true, false, vec![1]),
        (true, true, vec![1]),
        (true, true, vec![2]),
        (true, false, vec![1, 1]),
        (true, true, vec![1, 1]),
        (false, true, vec![1, 1]),
        (false, false, vec![2]),
        (true, true, vec![]),
    ];
    if thorough {
        teams.extend([(true, true, vec![2, 1]), (true, false, vec![3]), (true, false, vec![2, 2]), (true, true, vec![1, 1, 1])]);
    }
    for backend in 0..2usize {
        for unit in [false, true] {
            for kind in 0..4u8 {
                if unit && kind > 2 {
                    continue;
                }
                for (join, exit, kills) in teams.clone() {
                    let name = format!(
                        "{}/{}{kind}/{}{}{}",
                        ["blocking", "tokio"][backend],
                        if unit { "unit" } else { "value" },
                        if join { "join+" } else { "" },
                        if exit { "exit+" } else { "" },
                        kills.iter().map(|k| k.to_string()).collect::<Vec<_>>().join("+")
                    );
                    let budget = match (thorough, kills.iter().sum::<usize>(), kills.len()) {
                        (_, 0, _) => 9,
                        (false, 1, _) => 4,
                        (true, 1, _) => 7,
                        (false, 2.., 1) => 3,
                        (true, 2.., 1) => 4,
                        (true, s, 2) => 3 - (exit && s > 2) as u32,
                        (true, ..) => 1,
                        _ => 2,
                    };
                    v.push(Scenario::new(name, budget, move || {
                        warm();
                        let (mut ready, ready_tx) = pipe();
                        let (go, go_tx) = pipe();
                        let (pid, handles, do_join) = start(backend, unit, kind, ready_tx, go, kills.len())?;
                        ready.read_exact(&mut [0]).map_err(|e| format!("the child did not start: {e}"))?;
                        let w = World { pid, ended: false.into(), exited: false.into(), kills: 0.into(), hit: false.into() };
                        sched::EXTERNAL.store(true, SeqCst);
                        sys::SETTLE_KILL.store(true, SeqCst);
                        let w = &w;
                        let mut actors: Vec<(&'static str, Body)> = Vec::new();
                        let keep = if join {
                            actors.push(("join", Box::new(move || joined(w, do_join(), kind, unit))));
                            None
                        } else {
                            Some(do_join)
                        };
                        for (i, (k, n)) in handles.into_iter().zip(kills.clone()).enumerate() {
                            actors.push((["killer1", "killer2", "killer3"][i], Box::new(move || {
                                for _ in 0..n {
                                    kill(w, &k)?;
                                }
                                Ok(())
                            })));
                        }
                        if exit {
                            let mut go_tx = &go_tx;
                            actors.push(("child", Box::new(move || {
                                sys::uncontrolled(|| {
                                    let first = process_state(w.pid) == ProcState::Running;
                                    let _ = go_tx.write_all(b"g");
                                    sys::settle(w.pid);
                                    w.exited.store(true, SeqCst);
                                    w.ended.store(first && w.kills.load(SeqCst) == 0, SeqCst);
                                });
                                Ok(())
                            })));
                        }
                        sched::run(actors)?;
                        sched::EXTERNAL.store(false, SeqCst);
                        ensure!(!join || !sys::has_children(), "a child was not reaped");
                        drop(keep);
                        sys::reap_all();
                        Ok(format!("{} {} {}", w.hit.load(SeqCst), w.ended.load(SeqCst), w.exited.load(SeqCst)))
                    }));
                }
            }
        }
    }
    // Futures of joins, polled, killed and dropped in every order
    for backend in 1..3usize {
        for len in 1..=if thorough { 5 } else { 4 } {
            v.push(Scenario::new(format!("polled/{}/{len}", ["", "tokio", "smol"][backend]), 0, move || {
                warm();
                let mut ops = String::new();
                for _ in 0..len {
                    ops.push(['p', 'k', 'x', 'd'][choose(4)]);
                }
                if backend == 1 {
                    let rt = tokio::runtime::Builder::new_current_thread().enable_io().build().unwrap();
                    rt.block_on(async {
                        let (mut ready, ready_tx) = pipe();
                        let (go, go_tx) = pipe();
                        let c = target.spawn_tokio(0, ready_tx, go).await.map_err(|e| e.to_string())?;
                        ready.read_exact(&mut [0]).map_err(|e| format!("the child did not start: {e}"))?;
                        let (pid, k) = (c.id() as i32, c.get_kill_handle());
                        history(&ops, pid, k, go_tx, Box::pin(c.join())).await
                    })
                } else {
                    async_io::block_on(async {
                        let (mut ready, ready_tx) = pipe();
                        let (go, go_tx) = pipe();
                        let c = target.spawn_smol(0, ready_tx, go).await.map_err(|e| e.to_string())?;
                        ready.read_exact(&mut [0]).map_err(|e| format!("the child did not start: {e}"))?;
                        let (pid, k) = (c.id() as i32, c.get_kill_handle());
                        history(&ops, pid, k, go_tx, Box::pin(c.join())).await
                    })
                }?;
                sys::reap_all();
                Ok(ops)
            }));
        }
    }
    v
}

/// p: poll the join, x: let the child end, k: kill, d: drop the future.
async fn history(
    ops: &str,
    pid: i32,
    k: KillHandle,
    go_tx: File,
    join: Pin<Box<dyn Future<Output = std::io::Result<u8>>>>,
) -> Result<(), String> {
    let mut join = Some(join);
    let mut go_tx = Some(go_tx);
    let mut result = None;
    let mut killed = false;
    let mut exited = false;
    for op in ops.chars() {
        match op {
            'p' => {
                if let Some(j) = &mut join {
                    if let Poll::Ready(r) = std::future::poll_fn(|cx: &mut Context| Poll::Ready(j.as_mut().poll(cx))).await {
                        result = Some(r);
                        join = None;
                        ensure!(process_state(pid) == ProcState::Gone, "{ops}: joined, but not reaped");
                    }
                }
            }
            'k' => {
                let before = process_state(pid);
                let r = k.kill();
                match before {
                    ProcState::Running => {
                        ensure!(r.is_ok(), "{ops}: killing a running child failed: {r:?}");
                        sys::settle(pid);
                        killed = true;
                    }
                    ProcState::Zombie => {}
                    ProcState::Gone => ensure!(r.is_err(), "{ops}: killing a reaped child succeeded"),
                }
            }
            'x' => {
                if go_tx.take().is_some() && !killed {
                    sys::settle(pid);
                    exited = true;
                }
            }
            _ => join = None,
        }
    }
    if result.is_none() {
        if let Some(j) = join {
            if killed || exited {
                result = Some(j.await);
                ensure!(process_state(pid) == ProcState::Gone, "{ops}: joined, but not reaped");
                ensure!(k.kill().is_err(), "{ops}: killing a reaped child succeeded");
            }
        }
    }
    match result {
        Some(Ok(7)) => ensure!(exited, "{ops}: joining yielded a value of a killed child"),
        Some(Ok(_)) => return Err(format!("{ops}: another value")),
        Some(Err(e)) => ensure!(killed, "{ops}: the child was not killed, but joining failed: {e}"),
        None => {}
    }
    Ok(())
}
