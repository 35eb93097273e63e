//! Interposition of the system calls crossmist makes.
//!
//! The symbols defined here take precedence over libc's in the harness binaries. They do nothing
//! but forward to the kernel unless the calling thread is `controlled`. A controlled call is a
//! scheduling point (crate::sched), may be failed by the policy of the running scenario or by the
//! fault plan, and is observed (reaped processes, descriptors closed twice).
//!
//! The code between clone(CLONE_VM | CLONE_VFORK) and exec runs in another process that shares our
//! memory and has a 4096-byte stack: there only the fault plan (plain atomics) is consulted.
use std::arch::asm;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU32, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

use libc::{c_char, c_int, c_long, c_void};

pub fn raw(nr: c_long, a: [usize; 6]) -> isize {
    let r: isize;
    unsafe {
        asm!("syscall", inlateout("rax") nr as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
             in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Kind {
    Sendmsg,
    Recvmsg,
    Clone,
    Execv,
    Waitpid,
    Waitid,
    Kill,
    Setfd,
    Socketpair,
    Close,
    Shutdown,
    Dupfd,
}

#[derive(Clone, Copy, Debug)]
pub struct Call {
    pub kind: Kind,
    /// Descriptor or process id.
    pub arg: i32,
    /// Would the call return EAGAIN rather than block?
    pub nonblock: bool,
}

thread_local! {
    static CONTROLLED: Cell<bool> = const { Cell::new(false) };
}

pub static HARNESS_PID: AtomicI32 = AtomicI32::new(0);

pub type Policy = Box<dyn FnMut(&Call) -> i32 + Send>;
static POLICY: Mutex<Option<Policy>> = Mutex::new(None);
static HAS_POLICY: AtomicBool = AtomicBool::new(false);

/// Fault plan: fail the call with this index (counting calls of the kinds in the mask).
pub static PLAN_AT: AtomicI64 = AtomicI64::new(-1);
pub static PLAN_ERRNO: AtomicI32 = AtomicI32::new(0);
pub static PLAN_KINDS: AtomicU32 = AtomicU32::new(0);
pub static PLAN_SEEN: AtomicI64 = AtomicI64::new(0);
pub static PLAN_FIRED: AtomicI32 = AtomicI32::new(-1);

/// Called instead of failing (a `fn()`, or 0).
static PLAN_HOOK: AtomicUsize = AtomicUsize::new(0);

static REAL_CLONE: AtomicUsize = AtomicUsize::new(0);

/// First observation that is a violation whatever the scenario.
static OBSERVED: Mutex<Option<String>> = Mutex::new(None);
static REAPED: Mutex<Vec<i32>> = Mutex::new(Vec::new());
static KILLED: Mutex<Vec<i32>> = Mutex::new(Vec::new());
/// Wait for a process to be dead after signalling it, so that the history is deterministic.
pub static SETTLE_KILL: AtomicBool = AtomicBool::new(false);

fn find_clone() {
    unsafe {
        REAL_CLONE.store(libc::dlsym(libc::RTLD_NEXT, c"clone".as_ptr()) as usize, SeqCst);
    }
}

pub fn init() {
    find_clone();
    // Make sure that the whole program uses the symbols defined here
    let bound = [
        (libc::sendmsg as usize, sendmsg as usize),
        (libc::recvmsg as usize, recvmsg as usize),
        (libc::close as usize, close as usize),
        (libc::fcntl as usize, fcntl as usize),
        (libc::clone as usize, clone as usize),
        (libc::execv as usize, execv as usize),
        (libc::waitpid as usize, waitpid as usize),
        (libc::waitid as usize, waitid as usize),
        (libc::kill as usize, kill as usize),
        (libc::shutdown as usize, shutdown as usize),
        (libc::socketpair as usize, socketpair as usize),
        (libc::syscall as usize, syscall as usize),
    ];
    if bound.iter().any(|(a, b)| a != b) {
        crate::run::die("system calls are not interposed");
    }
    HARNESS_PID.store(raw(libc::SYS_getpid, [0; 6]) as i32, SeqCst);
}

struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        let _ = CONTROLLED.try_with(|c| c.set(self.0));
    }
}

fn is_controlled() -> bool {
    CONTROLLED.try_with(|c| c.get()).unwrap_or(false)
}

pub fn uncontrolled<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(is_controlled());
    let _ = CONTROLLED.try_with(|c| c.set(false));
    f()
}

pub fn controlled<R>(f: impl FnOnce() -> R) -> R {
    let _r = Restore(is_controlled());
    CONTROLLED.with(|c| c.set(true));
    f()
}

pub fn reset() {
    *POLICY.lock().unwrap_or_else(|e| e.into_inner()) = None;
    HAS_POLICY.store(false, SeqCst);
    PLAN_AT.store(-1, SeqCst);
    PLAN_KINDS.store(0, SeqCst);
    PLAN_SEEN.store(0, SeqCst);
    PLAN_FIRED.store(-1, SeqCst);
    SETTLE_KILL.store(false, SeqCst);
    *OBSERVED.lock().unwrap_or_else(|e| e.into_inner()) = None;
    REAPED.lock().unwrap_or_else(|e| e.into_inner()).clear();
    KILLED.lock().unwrap_or_else(|e| e.into_inner()).clear();
}

/// Consult `p` at every controlled call: 0 lets it proceed, anything else is the errno to fail with.
pub fn set_policy(p: Policy) {
    *POLICY.lock().unwrap_or_else(|e| e.into_inner()) = Some(p);
    HAS_POLICY.store(true, SeqCst);
}

pub fn clear_policy() {
    HAS_POLICY.store(false, SeqCst);
    *POLICY.lock().unwrap_or_else(|e| e.into_inner()) = None;
}

/// Run `hook` before call number `at`, in whichever process makes it.
pub fn set_hook(at: i64, hook: fn(), kinds: &[Kind]) {
    set_plan(at, 0, kinds);
    PLAN_HOOK.store(hook as usize, SeqCst);
}

pub fn set_plan(at: i64, errno: i32, kinds: &[Kind]) {
    PLAN_HOOK.store(0, SeqCst);
    PLAN_SEEN.store(0, SeqCst);
    PLAN_FIRED.store(-1, SeqCst);
    PLAN_ERRNO.store(errno, SeqCst);
    PLAN_KINDS.store(kinds.iter().fold(0, |m, k| m | 1 << *k as u8), SeqCst);
    PLAN_AT.store(at, SeqCst);
}

/// Number of calls counted by the plan, and the kind of the failed one if any.
pub fn plan_result() -> (i64, i32) {
    (PLAN_SEEN.load(SeqCst), PLAN_FIRED.load(SeqCst))
}

pub fn clear_plan() {
    PLAN_KINDS.store(0, SeqCst);
    PLAN_AT.store(-1, SeqCst);
}

pub fn observed() -> Option<String> {
    OBSERVED.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

pub fn observe(msg: String) {
    let mut g = OBSERVED.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(msg);
    }
}

pub fn reaped() -> Vec<i32> {
    REAPED.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

pub fn killed() -> Vec<i32> {
    KILLED.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

static STEPS: AtomicI64 = AtomicI64::new(0);

/// Controlled system calls since the last time this was asked.
pub fn take_steps() -> u64 {
    STEPS.swap(0, SeqCst) as u64
}

/// Also a scheduling point after a call that would have blocked.
pub static AFTER_EAGAIN: AtomicBool = AtomicBool::new(false);
/// Actors wait for locks for real: they are only held by threads that are not actors, and briefly.
pub static REAL_FUTEX: AtomicBool = AtomicBool::new(false);

thread_local! {
    static LAST: Cell<Option<(Kind, i32)>> = const { Cell::new(None) };
    static INTEREST: Cell<Option<(i32, i16)>> = const { Cell::new(None) };
    static SENT: Cell<u64> = const { Cell::new(0) };
    static IDLE: Cell<u32> = const { Cell::new(0) };
}

/// Successful message calls of this thread.
pub fn packets_sent() -> u64 {
    SENT.get()
}

/// The last message call of this thread that would have blocked, since this was asked last.
pub fn take_last() -> Option<(Kind, i32)> {
    LAST.take()
}

/// Like `take_last`, but it stays.
pub fn peek_last() -> Option<(Kind, i32)> {
    LAST.get()
}

/// What this thread has registered its interest in, since this was asked last: the descriptor and events.
pub fn take_interest() -> Option<(i32, i16)> {
    INTEREST.take()
}

/// How often an actor may ask in vain in a row before it is considered to be spinning.
const SPIN: u32 = 300;

fn nonblocking_result(kind: Kind, fd: i32, r: isize) -> isize {
    if !crate::sched::on_actor() {
        return ret(r);
    }
    if r == -libc::EAGAIN as isize {
        LAST.set(Some((kind, fd)));
        IDLE.set(IDLE.get() + 1);
        if IDLE.get() > SPIN {
            uncontrolled(|| crate::run::violation_exit("an asynchronous operation is polled endlessly although it cannot make progress"));
        }
        if AFTER_EAGAIN.load(SeqCst) {
            uncontrolled(crate::sched::point);
        }
    } else {
        IDLE.set(0);
    }
    ret(r)
}

#[derive(PartialEq)]
enum Mode {
    Pass,
    Full,
    VforkChild,
}

fn mode() -> Mode {
    if !is_controlled() {
        return Mode::Pass;
    }
    if raw(libc::SYS_getpid, [0; 6]) as i32 == HARNESS_PID.load(SeqCst) {
        Mode::Full
    } else if HARNESS_PID.load(SeqCst) != 0 {
        Mode::VforkChild
    } else {
        Mode::Pass
    }
}

fn plan(kind: Kind) -> i32 {
    if PLAN_KINDS.load(SeqCst) & (1 << kind as u8) == 0 {
        return 0;
    }
    let i = PLAN_SEEN.fetch_add(1, SeqCst);
    if i == PLAN_AT.load(SeqCst) {
        PLAN_FIRED.store(kind as u8 as i32, SeqCst);
        let hook = PLAN_HOOK.load(SeqCst);
        if hook != 0 {
            unsafe { std::mem::transmute::<usize, fn()>(hook)() };
            return 0;
        }
        return PLAN_ERRNO.load(SeqCst);
    }
    0
}

/// Returns the errno to fail with, or 0.
fn gate(m: &Mode, kind: Kind, arg: i32, nonblock: bool) -> i32 {
    STEPS.fetch_add(1, SeqCst);
    if *m == Mode::VforkChild {
        return plan(kind);
    }
    uncontrolled(|| {
        crate::sched::point();
        if HAS_POLICY.load(SeqCst) {
            // Taken out while it runs, as it may be entered by several threads in turn
            let p = POLICY.lock().unwrap_or_else(|e| e.into_inner()).take();
            if let Some(mut p) = p {
                let e = p(&Call { kind, arg, nonblock });
                *POLICY.lock().unwrap_or_else(|e| e.into_inner()) = Some(p);
                if e != 0 {
                    return e;
                }
            }
        }
        plan(kind)
    })
}

fn fd_nonblocking(fd: c_int) -> bool {
    raw(libc::SYS_fcntl, [fd as usize, libc::F_GETFL as usize, 0, 0, 0, 0]) & libc::O_NONBLOCK as isize != 0
}

// ---- process death of a crossmist child at its k-th call (MC_DIE="k:how") ----

static DIE_AT: AtomicI64 = AtomicI64::new(-1);
static DIE_HOW: AtomicI32 = AtomicI32::new(0);
static DIE_SEEN: AtomicI64 = AtomicI64::new(0);
static DIE_LOG: AtomicI32 = AtomicI32::new(-1);

/// In a crossmist child: arm the death requested by the parent. `MC_DIE=k:how:fd`, where calls
/// completed are logged as single bytes to descriptor `fd`.
pub fn child_init() {
    find_clone();
    if let Ok(s) = std::env::var("MC_DIE") {
        let v: Vec<i64> = s.split(':').map(|x| x.parse().unwrap()).collect();
        DIE_HOW.store(v[1] as i32, SeqCst);
        DIE_LOG.store(v[2] as i32, SeqCst);
        DIE_AT.store(v[0], SeqCst);
    }
}

fn die_point(kind: Kind) {
    if DIE_LOG.load(SeqCst) < 0 {
        return;
    }
    let i = DIE_SEEN.fetch_add(1, SeqCst);
    if i == DIE_AT.load(SeqCst) {
        match DIE_HOW.load(SeqCst) {
            0 => {
                raw(libc::SYS_kill, [raw(libc::SYS_getpid, [0; 6]) as usize, libc::SIGKILL as usize, 0, 0, 0, 0]);
                loop {
                    std::hint::spin_loop();
                }
            }
            1 => unsafe { libc::_exit(0) },
            2 => unsafe { libc::_exit(3) },
            // Hang
            4 => loop {
                unsafe { libc::pause() };
            },
            _ => unsafe { libc::abort() },
        }
    }
    let b = [b'A' + kind as u8];
    raw(libc::SYS_write, [DIE_LOG.load(SeqCst) as usize, b.as_ptr() as usize, 1, 0, 0, 0]);
}

fn done_point(kind: Kind, r: isize) {
    if DIE_LOG.load(SeqCst) < 0 {
        return;
    }
    let b = [if r < 0 { b'!' } else { b'a' + kind as u8 }];
    raw(libc::SYS_write, [DIE_LOG.load(SeqCst) as usize, b.as_ptr() as usize, 1, 0, 0, 0]);
}

// ---- the interposed symbols ----

#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, msg: *const libc::msghdr, flags: c_int) -> isize {
    let call = |fl: c_int| raw(libc::SYS_sendmsg, [fd as usize, msg as usize, fl as usize, 0, 0, 0]);
    let m = mode();
    if m == Mode::Pass {
        die_point(Kind::Sendmsg);
        let r = call(flags);
        done_point(Kind::Sendmsg, r);
        return ret(r);
    }
    let nonblock = flags & libc::MSG_DONTWAIT != 0 || fd_nonblocking(fd);
    let e = gate(&m, Kind::Sendmsg, fd, nonblock);
    if e != 0 {
        return ret(-e as isize);
    }
    if nonblock || !crate::sched::on_actor() {
        let r = call(flags);
        SENT.set(SENT.get() + (r > 0) as u64);
        return nonblocking_result(Kind::Sendmsg, fd, r);
    }
    loop {
        let r = call(flags | libc::MSG_DONTWAIT);
        if r != -libc::EAGAIN as isize {
            SENT.set(SENT.get() + (r > 0) as u64);
            return ret(r);
        }
        uncontrolled(|| crate::sched::wait_out(fd));
    }
}

#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, msg: *mut libc::msghdr, flags: c_int) -> isize {
    let addr = msg as usize;
    let call = |fl: c_int| raw(libc::SYS_recvmsg, [fd as usize, addr, fl as usize, 0, 0, 0]);
    let m = mode();
    if m == Mode::Pass {
        die_point(Kind::Recvmsg);
        let r = call(flags);
        done_point(Kind::Recvmsg, r);
        return ret(r);
    }
    let nonblock = flags & libc::MSG_DONTWAIT != 0 || fd_nonblocking(fd);
    let e = gate(&m, Kind::Recvmsg, fd, nonblock);
    if e != 0 {
        return ret(-e as isize);
    }
    if nonblock || !crate::sched::on_actor() {
        return nonblocking_result(Kind::Recvmsg, fd, call(flags));
    }
    // The kernel overwrites msg_controllen even if there is nothing to receive
    let saved = msg.read();
    loop {
        let r = call(flags | libc::MSG_DONTWAIT);
        if r != -libc::EAGAIN as isize {
            return ret(r);
        }
        msg.write(saved);
        uncontrolled(|| crate::sched::wait_fd(fd, libc::POLLIN));
    }
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    let m = mode();
    if m != Mode::Pass {
        let e = gate(&m, Kind::Shutdown, fd, false);
        if e != 0 {
            return ret(-e as isize) as c_int;
        }
    }
    ret(raw(libc::SYS_shutdown, [fd as usize, how as usize, 0, 0, 0, 0])) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn socketpair(domain: c_int, ty: c_int, proto: c_int, sv: *mut c_int) -> c_int {
    let m = mode();
    if m != Mode::Pass {
        let e = gate(&m, Kind::Socketpair, 0, false);
        if e != 0 {
            return ret(-e as isize) as c_int;
        }
    }
    ret(raw(libc::SYS_socketpair, [domain as usize, ty as usize, proto as usize, sv as usize, 0, 0])) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let m = mode();
    if m != Mode::Pass {
        // Failures of close are not injected: the descriptor is gone in any case
        if m == Mode::Full {
            uncontrolled(crate::sched::point);
        }
        let r = raw(libc::SYS_close, [fd as usize, 0, 0, 0, 0, 0]);
        if m == Mode::Full && r == -libc::EBADF as isize {
            uncontrolled(|| observe("a descriptor was closed that was not open".to_string()));
        }
        return ret(r) as c_int;
    }
    ret(raw(libc::SYS_close, [fd as usize, 0, 0, 0, 0, 0])) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let kind = match cmd {
        libc::F_SETFD => Some(Kind::Setfd),
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => Some(Kind::Dupfd),
        _ => None,
    };
    if let Some(kind) = kind {
        let m = mode();
        if m == Mode::Pass {
            die_point(kind);
        } else {
            let e = gate(&m, kind, fd, false);
            if e != 0 {
                return ret(-e as isize) as c_int;
            }
        }
    }
    ret(raw(libc::SYS_fcntl, [fd as usize, cmd as usize, arg, 0, 0, 0])) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}

extern "C" {
    static environ: *const *const c_char;
}

#[no_mangle]
pub unsafe extern "C" fn execv(path: *const c_char, argv: *const *const c_char) -> c_int {
    execve(path, argv, environ)
}

#[no_mangle]
pub unsafe extern "C" fn execve(path: *const c_char, argv: *const *const c_char, env: *const *const c_char) -> c_int {
    let m = mode();
    if m == Mode::VforkChild {
        let e = plan(Kind::Execv);
        if e != 0 {
            return ret(-e as isize) as c_int;
        }
    }
    ret(raw(libc::SYS_execve, [path as usize, argv as usize, env as usize, 0, 0, 0])) as c_int
}

type CloneFn = unsafe extern "C" fn(usize, *mut c_void, c_int, *mut c_void, usize, usize, usize) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn clone(cb: usize, stack: *mut c_void, flags: c_int, arg: *mut c_void, a: usize, b: usize, c: usize) -> c_int {
    let m = mode();
    if m != Mode::Pass {
        let e = gate(&m, Kind::Clone, 0, false);
        if e != 0 {
            return ret(-e as isize) as c_int;
        }
    }
    let f: CloneFn = std::mem::transmute(REAL_CLONE.load(SeqCst));
    f(cb, stack, flags, arg, a, b, c)
}

fn note_reaped(pid: i32) {
    uncontrolled(|| REAPED.lock().unwrap_or_else(|e| e.into_inner()).push(pid));
}

unsafe fn do_wait4(pid: libc::pid_t, status: *mut c_int, options: c_int) -> libc::pid_t {
    let call = |o: c_int| raw(libc::SYS_wait4, [pid as usize, status as usize, o as usize, 0, 0, 0]);
    let m = mode();
    if m != Mode::Full {
        return ret(call(options)) as libc::pid_t;
    }
    let e = gate(&m, Kind::Waitpid, pid, false);
    if e != 0 {
        return ret(-e as isize) as libc::pid_t;
    }
    let r = if crate::sched::on_actor() && options & libc::WNOHANG == 0 {
        loop {
            let r = call(options | libc::WNOHANG);
            if r != 0 {
                break r;
            }
            uncontrolled(|| crate::sched::wait_pid(pid));
        }
    } else {
        call(options)
    };
    if r > 0 {
        note_reaped(r as i32);
    }
    uncontrolled(crate::sched::point);
    ret(r) as libc::pid_t
}

#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: libc::pid_t, status: *mut c_int, options: c_int) -> libc::pid_t {
    do_wait4(pid, status, options)
}

#[no_mangle]
pub unsafe extern "C" fn wait4(pid: libc::pid_t, status: *mut c_int, options: c_int, _ru: *mut c_void) -> libc::pid_t {
    do_wait4(pid, status, options)
}

#[no_mangle]
pub unsafe extern "C" fn waitid(idtype: libc::idtype_t, id: libc::id_t, info: *mut libc::siginfo_t, options: c_int) -> c_int {
    let call = |o: c_int| raw(libc::SYS_waitid, [idtype as usize, id as usize, info as usize, o as usize, 0, 0]);
    let m = mode();
    if m != Mode::Full {
        return ret(call(options)) as c_int;
    }
    let e = gate(&m, Kind::Waitid, id as i32, false);
    if e != 0 {
        return ret(-e as isize) as c_int;
    }
    let r = if crate::sched::on_actor() && options & libc::WNOHANG == 0 && idtype == libc::P_PID {
        loop {
            if process_state(id as i32) != ProcState::Running {
                break call(options);
            }
            uncontrolled(|| crate::sched::wait_pid(id as i32));
        }
    } else {
        call(options)
    };
    if r == 0 && options & libc::WNOWAIT == 0 && options & libc::WEXITED != 0 && idtype == libc::P_PID {
        note_reaped(id as i32);
    }
    uncontrolled(crate::sched::point);
    ret(r) as c_int
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum ProcState {
    Running,
    Zombie,
    /// Not a child of ours (any more).
    Gone,
}

pub fn process_state(pid: i32) -> ProcState {
    let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
    let o = libc::WEXITED | libc::WNOWAIT | libc::WNOHANG;
    let r = raw(libc::SYS_waitid, [libc::P_PID as usize, pid as usize, &mut info as *mut _ as usize, o as usize, 0, 0]);
    if r < 0 {
        ProcState::Gone
    } else if unsafe { info.si_pid() } == 0 {
        ProcState::Running
    } else {
        ProcState::Zombie
    }
}

/// Wait for a child of ours to be dead (not reaping it).
pub fn settle(pid: i32) -> bool {
    let start = std::time::Instant::now();
    while process_state(pid) == ProcState::Running {
        if start.elapsed().as_secs() > 30 {
            return false;
        }
        std::thread::sleep(std::time::Duration::from_micros(50));
    }
    true
}

/// Whether this process has any child, dead or alive.
pub fn has_children() -> bool {
    let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
    let o = libc::WEXITED | libc::WNOWAIT | libc::WNOHANG;
    raw(libc::SYS_waitid, [libc::P_ALL as usize, 0, &mut info as *mut _ as usize, o as usize, 0, 0]) >= 0
}

/// Reap whatever is left after an execution, killing what still runs.
pub fn reap_all() {
    let me = raw(libc::SYS_getpid, [0; 6]);
    let path = format!("/proc/{me}/task");
    loop {
        let r = raw(libc::SYS_wait4, [usize::MAX, 0, libc::WNOHANG as usize, 0, 0, 0]);
        if r > 0 {
            continue;
        }
        if r < 0 {
            return;
        }
        for t in std::fs::read_dir(&path).into_iter().flatten().flatten() {
            let kids = std::fs::read_to_string(t.path().join("children")).unwrap_or_default();
            for k in kids.split_whitespace() {
                if let Ok(k) = k.parse::<i32>() {
                    if k > 1 {
                        raw(libc::SYS_kill, [k as usize, libc::SIGKILL as usize, 0, 0, 0, 0]);
                    }
                }
            }
        }
        std::thread::sleep(std::time::Duration::from_micros(100));
    }
}

#[no_mangle]
pub unsafe extern "C" fn kill(pid: libc::pid_t, sig: c_int) -> c_int {
    let call = || raw(libc::SYS_kill, [pid as usize, sig as usize, 0, 0, 0, 0]);
    let m = mode();
    if m == Mode::Pass {
        return ret(call()) as c_int;
    }
    let e = gate(&m, Kind::Kill, pid, false);
    if e != 0 {
        return ret(-e as isize) as c_int;
    }
    if m == Mode::VforkChild || pid <= 1 || process_state(pid) == ProcState::Gone {
        // Never let it through: it might hit an unrelated process
        uncontrolled(|| observe("a process that is not a child (any more) was signalled".to_string()));
        return ret(-libc::ESRCH as isize) as c_int;
    }
    let r = call();
    uncontrolled(|| {
        if r == 0 && sig != 0 {
            KILLED.lock().unwrap_or_else(|e| e.into_inner()).push(pid);
            if SETTLE_KILL.load(SeqCst) && sig == libc::SIGKILL {
                settle(pid);
            }
        }
        crate::sched::point();
    });
    ret(r) as c_int
}

/// The reactor of smol is told here what a future waits for.
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, event: *mut libc::epoll_event) -> c_int {
    let r = raw(libc::SYS_epoll_ctl, [ep as usize, op as usize, fd as usize, event as usize, 0, 0]);
    if r == 0 && op != libc::EPOLL_CTL_DEL && is_controlled() && crate::sched::on_actor() {
        let events = std::ptr::read_unaligned(event).events as i32;
        let bits = (events & libc::EPOLLIN) as i16 | (events & libc::EPOLLOUT) as i16;
        if bits != 0 {
            INTEREST.set(Some((fd, bits)));
        }
    }
    ret(r) as c_int
}

/// The runtime of tokio waits here.
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, events: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    let mut timeout = timeout;
    if timeout < 0 && is_controlled() && crate::sched::on_actor() {
        uncontrolled(|| crate::sched::wait_fd(ep, libc::POLLIN));
        timeout = 0;
    }
    ret(raw(libc::SYS_epoll_wait, [ep as usize, events as usize, max as usize, timeout as usize, 0, 0])) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn syscall(nr: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if nr == libc::SYS_futex && !REAL_FUTEX.load(SeqCst) && is_controlled() && crate::sched::on_actor() {
        let op = b as i32 & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let addr = a as *const AtomicU32;
            if (*addr).load(SeqCst) != c as u32 {
                return ret(-libc::EAGAIN as isize) as c_long;
            }
            uncontrolled(|| crate::sched::wait_futex(a, c as u32));
            return 0;
        }
    }
    ret(raw(nr, [a, b, c, d, e, f])) as c_long
}
