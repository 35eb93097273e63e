//! Cooperative scheduler: of the actor threads of an execution exactly one runs at a time. Control
//! passes at the interposed calls; a call that would block is retried once it can proceed.
use crate::explore::{choose, deviate};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};

enum Wait {
    Ready,
    Fd(i32, i16),
    /// Space in the send buffer, as a blocking send would wait for it.
    Out(i32),
    Pid(i32),
    Futex(usize, u32),
    Done,
}

impl Wait {
    fn enabled(&self) -> bool {
        match *self {
            Wait::Ready => true,
            Wait::Done => false,
            Wait::Fd(fd, ev) => poll(fd, ev) != 0,
            Wait::Out(fd) => {
                let mut q: i32 = 0;
                let mut s: i32 = 0;
                let mut l: u32 = 4;
                unsafe {
                    if libc::ioctl(fd, libc::TIOCOUTQ, &mut q) != 0
                        || libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &mut s as *mut i32 as *mut _, &mut l) != 0
                    {
                        return true;
                    }
                }
                q < s || poll(fd, 0) != 0
            }
            Wait::Pid(pid) => crate::sys::process_state(pid) != crate::sys::ProcState::Running,
            Wait::Futex(a, v) => unsafe { (*(a as *const AtomicU32)).load(SeqCst) != v },
        }
    }
    fn describe(&self) -> String {
        match self {
            Wait::Ready => "ready".into(),
            Wait::Done => "done".into(),
            Wait::Fd(_, e) if e & libc::POLLIN != 0 => "waiting to receive".into(),
            Wait::Fd(..) => "waiting to send".into(),
            Wait::Out(_) => "blocked in send".into(),
            Wait::Pid(_) => "waiting for a process".into(),
            Wait::Futex(..) => "waiting for a lock".into(),
        }
    }
}

pub fn poll(fd: i32, ev: i16) -> i16 {
    let mut p = libc::pollfd { fd, events: ev, revents: 0 };
    unsafe { libc::poll(&mut p, 1, 0) };
    p.revents
}

struct Sched {
    names: Vec<&'static str>,
    waits: Vec<Wait>,
    current: usize,
}

static S: Mutex<Option<Sched>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
/// The environment (child processes) may enable an actor at any time: wait before declaring deadlock.
pub static EXTERNAL: AtomicBool = AtomicBool::new(false);

/// Processes that are waited for end by themselves: wait for them there and then, so that the history
/// does not depend on when they do.
pub static EAGER: AtomicBool = AtomicBool::new(false);

const NONE: usize = usize::MAX;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
}

pub fn on_actor() -> bool {
    ME.try_with(|m| m.get()).unwrap_or(NONE) != NONE
}

fn wait_turn(me: usize) {
    let mut g = S.lock().unwrap();
    while g.as_ref().unwrap().current != me {
        g = CV.wait(g).unwrap();
    }
}

fn switch(to: usize, me: usize) {
    if to == me {
        return;
    }
    S.lock().unwrap().as_mut().unwrap().current = to;
    CV.notify_all();
}

fn enabled(except: usize) -> Vec<usize> {
    let g = S.lock().unwrap();
    let s = g.as_ref().unwrap();
    (0..s.waits.len()).filter(|&i| i != except && s.waits[i].enabled()).collect()
}

/// A scheduling point: the running actor may be preempted.
pub fn point() {
    let me = ME.get();
    if me == NONE {
        return;
    }
    let others = enabled(me);
    let c = deviate(others.len() + 1);
    if c > 0 {
        switch(others[c - 1], me);
        wait_turn(me);
    }
}

fn block(w: Wait) {
    let me = ME.get();
    if me == NONE {
        // Not scheduled: wait for real
        while !w.enabled() {
            std::thread::sleep(std::time::Duration::from_micros(50));
        }
        return;
    }
    if EAGER.load(SeqCst) && matches!(w, Wait::Pid(_)) {
        let start = std::time::Instant::now();
        while !w.enabled() && start.elapsed().as_secs() < 20 {
            std::thread::sleep(std::time::Duration::from_micros(50));
        }
    }
    if w.enabled() {
        // E.g. two actors waiting for each other to make a futex change
        return;
    }
    S.lock().unwrap().as_mut().unwrap().waits[me] = w;
    let to = pick();
    switch(to, me);
    wait_turn(me);
    S.lock().unwrap().as_mut().unwrap().waits[me] = Wait::Ready;
}

fn pick() -> usize {
    let mut e = enabled(NONE);
    if e.is_empty() && EXTERNAL.load(SeqCst) {
        let start = std::time::Instant::now();
        while e.is_empty() && start.elapsed().as_secs() < 20 {
            std::thread::sleep(std::time::Duration::from_micros(100));
            e = enabled(NONE);
        }
    }
    if e.is_empty() {
        let g = S.lock().unwrap();
        let s = g.as_ref().unwrap();
        let d: Vec<String> = s.names.iter().zip(&s.waits).map(|(n, w)| format!("{n}: {}", w.describe())).collect();
        crate::run::violation_exit(&format!("deadlock: {}", d.join(", ")));
    }
    e[choose(e.len())]
}

pub fn wait_fd(fd: i32, ev: i16) {
    block(Wait::Fd(fd, ev))
}
pub fn wait_out(fd: i32) {
    block(Wait::Out(fd))
}
pub fn wait_pid(pid: i32) {
    block(Wait::Pid(pid))
}
pub fn wait_futex(addr: usize, val: u32) {
    block(Wait::Futex(addr, val))
}

pub type Body<'a> = Box<dyn FnOnce() -> Result<(), String> + Send + 'a>;

/// Run the actors to completion under every schedule the explorer asks for (one per execution).
pub fn run(actors: Vec<(&'static str, Body<'_>)>) -> Result<(), String> {
    let n = actors.len();
    *S.lock().unwrap() = Some(Sched {
        names: actors.iter().map(|a| a.0).collect(),
        waits: (0..n).map(|_| Wait::Ready).collect(),
        current: NONE,
    });
    let first = choose(n);
    std::thread::scope(|sc| {
        for (i, (name, body)) in actors.into_iter().enumerate() {
            sc.spawn(move || {
                ME.set(i);
                wait_turn(i);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crate::sys::controlled(body)));
                let msg = match r {
                    Ok(Ok(())) => None,
                    Ok(Err(e)) => Some(e),
                    Err(p) => Some(format!("panic: {}", crate::run::panic_text(&p))),
                };
                if let Some(m) = msg {
                    // The other actors may never finish now
                    crate::run::violation_exit(&format!("{name}: {m}"));
                }
                let last = {
                    let mut g = S.lock().unwrap();
                    let s = g.as_mut().unwrap();
                    s.waits[i] = Wait::Done;
                    s.waits.iter().all(|w| matches!(w, Wait::Done))
                };
                ME.set(NONE);
                if !last {
                    switch(pick(), i);
                }
            });
        }
        S.lock().unwrap().as_mut().unwrap().current = first;
        CV.notify_all();
    });
    *S.lock().unwrap() = None;
    Ok(())
}
