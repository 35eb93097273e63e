//! Driving futures of tokio and smol endpoints on actors of the cooperative scheduler.
//!
//! tokio: the real runtime, whose waiting (epoll_wait) is the scheduler's: if no actor can go on and
//! no event is pending, a wake-up was lost. smol: its reactor is a thread of its own; here a future
//! is polled again once the kernel says that what it waited for is there, and must have been woken.
use mc::sched;
use mc::sys::{self, Kind};
use mc::{choose, deviate};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rt {
    Sync,
    Tokio,
    Smol,
}
pub const RTS: [Rt; 3] = [Rt::Sync, Rt::Tokio, Rt::Smol];

thread_local! {
    /// A future woken for nothing is polled out of turn, when the reactor happens to: no choices then.
    static OUT_OF_TURN: Cell<bool> = const { Cell::new(false) };
    /// Whether the future being polled is one of smol.
    static SMOL: Cell<bool> = const { Cell::new(false) };
    static RUNTIME: RefCell<Option<Arc<tokio::runtime::Runtime>>> = const { RefCell::new(None) };
}

/// Run `f` where endpoints of this kind can be created and driven.
pub fn inside<R>(rt: Rt, f: impl FnOnce() -> R) -> R {
    sys::REAL_FUTEX.store(true, SeqCst);
    sys::AFTER_EAGAIN.store(true, SeqCst);
    if rt != Rt::Tokio {
        return f();
    }
    let runtime = sys::uncontrolled(|| Arc::new(tokio::runtime::Builder::new_current_thread().enable_io().build().unwrap()));
    RUNTIME.set(Some(runtime.clone()));
    let r = {
        let _guard = runtime.enter();
        f()
    };
    sys::uncontrolled(|| {
        RUNTIME.set(None);
        drop(runtime);
    });
    r
}

#[derive(Default)]
struct Flag {
    woken: AtomicBool,
    times: AtomicU32,
    /// The task this branch is a part of.
    parent: Mutex<Option<Waker>>,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.times.fetch_add(1, SeqCst);
        self.woken.store(true, SeqCst);
        if let Some(w) = &*self.parent.lock().unwrap() {
            w.wake_by_ref();
        }
    }
}

/// What the future that has just been polled waits for: what its last message call lacked, or else
/// what it has told the reactor (which may include what the `other` future of the task waits for),
/// or else the same as before.
fn event(before: Option<(i32, i16)>, other: Option<(i32, i16)>) -> Option<(i32, i16)> {
    let interest = sys::take_interest();
    if let Some((k, fd)) = sys::take_last() {
        return Some((fd, if k == Kind::Sendmsg { libc::POLLOUT } else { libc::POLLIN }));
    }
    let both = libc::POLLIN | libc::POLLOUT;
    match interest {
        Some((fd, bits)) if bits == both => match (before, other) {
            (Some(e), _) if e.0 == fd => before,
            (_, Some((f, e))) if f == fd => Some((fd, both & !e)),
            _ => interest,
        },
        Some(_) => interest,
        None => before,
    }
}

/// Poll a future of smol. It may be woken and yet not try again what it waits for: the reactor only
/// reports what it has seen after it was asked, so that it may take it another round, or several. How
/// many there are depends on the reactor's timing; they are not told apart.
fn poll_smol<F: Future + ?Sized>(
    f: &mut Pin<&mut F>,
    flag: &Arc<Flag>,
    ev: &mut Option<(i32, i16)>,
    other: Option<(i32, i16)>,
) -> Poll<F::Output> {
    let waker = Waker::from(flag.clone());
    let before = *ev;
    let mut rounds = 0;
    loop {
        flag.woken.store(false, SeqCst);
        sys::take_last();
        sys::take_interest();
        SMOL.set(true);
        let r = f.as_mut().poll(&mut Context::from_waker(&waker));
        SMOL.set(false);
        let tried = sys::peek_last().is_some();
        *ev = event(*ev, other);
        if r.is_ready() || tried || before.is_none() || *ev != before {
            return r;
        }
        let (fd, bits) = ev.unwrap();
        if !sys::uncontrolled(|| sched::poll(fd, bits) != 0) {
            return r;
        }
        rounds += 1;
        if rounds > 1000 {
            mc::run::violation_exit(&format!("{} is possible but the operation does not go on", what(bits)));
        }
        sys::uncontrolled(|| await_wake(flag, *ev));
    }
}

fn what(ev: i16) -> &'static str {
    if ev == libc::POLLOUT {
        "sending"
    } else {
        "receiving"
    }
}

/// The descriptor is ready: the future must have been woken, or be about to.
fn await_wake(flag: &Flag, ev: Option<(i32, i16)>) {
    let start = Instant::now();
    while !flag.woken.load(SeqCst) {
        if start.elapsed() > Duration::from_secs(8) {
            match ev {
                Some((_, e)) => mc::run::violation_exit(&format!("{} is possible but the operation is not woken up", what(e))),
                None => mc::run::violation_exit("an operation is never woken up"),
            }
        }
        std::thread::sleep(Duration::from_micros(20));
    }
}

/// Nothing is ready: a future that is woken nevertheless must not be woken again and again.
fn no_spin<F: Future + ?Sized>(f: &mut Pin<&mut F>, flag: &Arc<Flag>, ev: (i32, i16)) -> Poll<F::Output> {
    for _ in 0..50 {
        std::thread::sleep(Duration::from_micros(200));
        if sched::poll(ev.0, ev.1) != 0 || !flag.woken.swap(false, SeqCst) {
            return Poll::Pending;
        }
        let waker = Waker::from(flag.clone());
        OUT_OF_TURN.set(true);
        let r = f.as_mut().poll(&mut Context::from_waker(&waker));
        OUT_OF_TURN.set(false);
        if r.is_ready() {
            return r;
        }
    }
    mc::run::violation_exit(&format!("{} is not possible but the operation is woken up again and again", what(ev.1)))
}

fn smol<F: Future>(f: F) -> F::Output {
    let flag = Arc::new(Flag::default());
    let mut f = std::pin::pin!(f);
    let mut ev = None;
    loop {
        if let Poll::Ready(r) = poll_smol(&mut f, &flag, &mut ev, None) {
            return r;
        }
        let early = sys::uncontrolled(|| {
            if let Some(ev) = ev {
                if sched::poll(ev.0, ev.1) == 0 {
                    if let Poll::Ready(r) = no_spin(&mut f, &flag, ev) {
                        return Some(r);
                    }
                    sched::wait_fd(ev.0, ev.1);
                }
            }
            await_wake(&flag, ev);
            None
        });
        if let Some(r) = early {
            return r;
        }
    }
}

pub fn drive<F: Future>(rt: Rt, f: F) -> F::Output {
    match rt {
        Rt::Tokio => RUNTIME.with(|r| r.borrow().clone()).unwrap().block_on(f),
        Rt::Smol => smol(f),
        Rt::Sync => unreachable!(),
    }
}

/// Await `f`, but every time it is pending it may be dropped instead. None if it was.
pub async fn unless_dropped<F: Future>(f: F) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    let mut first = true;
    std::future::poll_fn(move |cx| {
        let r = f.as_mut().poll(cx);
        // See poll_smol
        let counts = !SMOL.get() || first || sys::peek_last().is_some();
        first = false;
        match r {
            Poll::Ready(r) => Poll::Ready(Some(r)),
            Poll::Pending if counts && !OUT_OF_TURN.get() && deviate(2) == 1 => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    })
    .await
}

/// Two futures in one task, each of which is polled only when it was woken, in any order.
struct Both<'a, A, B> {
    a: Pin<&'a mut (dyn Future<Output = A> + 'a)>,
    b: Pin<&'a mut (dyn Future<Output = B> + 'a)>,
    done: (Option<A>, Option<B>),
    flags: [Arc<Flag>; 2],
    events: [Option<(i32, i16)>; 2],
    rt: Rt,
}

impl<A, B> Both<'_, A, B> {
    /// Poll what is due. Whether both are done.
    fn step(&mut self, due: &[usize]) -> bool {
        let first = choose(due.len());
        for k in 0..due.len() {
            let i = due[(first + k) % due.len()];
            let flag = self.flags[i].clone();
            let other = if self.finished(1 - i) { None } else { self.events[1 - i] };
            let mut ev = self.events[i];
            let mut r = (None, None);
            if self.rt == Rt::Smol {
                if i == 0 {
                    if let Poll::Ready(v) = poll_smol(&mut self.a, &flag, &mut ev, other) {
                        r.0 = Some(v);
                    }
                } else if let Poll::Ready(v) = poll_smol(&mut self.b, &flag, &mut ev, other) {
                    r.1 = Some(v);
                }
            } else {
                flag.woken.store(false, SeqCst);
                let waker = Waker::from(flag);
                let mut cx = Context::from_waker(&waker);
                if i == 0 {
                    if let Poll::Ready(v) = self.a.as_mut().poll(&mut cx) {
                        r.0 = Some(v);
                    }
                } else if let Poll::Ready(v) = self.b.as_mut().poll(&mut cx) {
                    r.1 = Some(v);
                }
            }
            self.events[i] = ev;
            if r.0.is_some() {
                self.done.0 = r.0;
            }
            if r.1.is_some() {
                self.done.1 = r.1;
            }
        }
        self.finished(0) && self.finished(1)
    }
    fn woken(&self) -> Vec<usize> {
        (0..2).filter(|i| !self.finished(*i) && self.flags[*i].woken.load(SeqCst)).collect()
    }
    /// What can make progress, having been woken.
    fn ready(&mut self) -> Vec<usize> {
        let mut due = Vec::new();
        for i in 0..2 {
            if self.finished(i) {
                continue;
            }
            let Some(ev) = self.events[i] else {
                await_wake(&self.flags[i], None);
                due.push(i);
                continue;
            };
            if sched::poll(ev.0, ev.1) != 0 {
                await_wake(&self.flags[i], Some(ev));
                due.push(i);
                continue;
            }
            if i == 0 {
                if let Poll::Ready(r) = no_spin(&mut self.a, &self.flags[i], ev) {
                    self.done.0 = Some(r);
                }
            } else if let Poll::Ready(r) = no_spin(&mut self.b, &self.flags[i], ev) {
                self.done.1 = Some(r);
            }
        }
        due
    }
    fn finished(&self, i: usize) -> bool {
        if i == 0 {
            self.done.0.is_some()
        } else {
            self.done.1.is_some()
        }
    }
}

pub fn both<A, B>(rt: Rt, a: impl Future<Output = A>, b: impl Future<Output = B>) -> (A, B) {
    let a = std::pin::pin!(a);
    let b = std::pin::pin!(b);
    let flags = [Arc::new(Flag::default()), Arc::new(Flag::default())];
    for f in &flags {
        f.woken.store(true, SeqCst);
    }
    let mut t = Both { a, b, done: (None, None), flags, events: [None, None], rt };
    if rt == Rt::Tokio {
        drive(
            rt,
            std::future::poll_fn(|cx| {
                for f in &t.flags {
                    *f.parent.lock().unwrap() = Some(cx.waker().clone());
                }
                // What is woken while the other is polled
                loop {
                    let due = t.woken();
                    if due.is_empty() {
                        return Poll::Pending;
                    }
                    if t.step(&due) {
                        return Poll::Ready(());
                    }
                }
            }),
        );
    } else {
        let mut due = t.woken();
        while !t.step(&due) {
            due = sys::uncontrolled(|| t.ready());
            if due.is_empty() && !(t.finished(0) && t.finished(1)) {
                let d: Vec<_> = (0..2).filter(|i| !t.finished(*i)).map(|i| t.events[i].map_or("waiting", |e| what(e.1))).collect();
                mc::run::violation_exit(&format!("deadlock of two futures: {}", d.join(", ")));
            }
        }
    }
    (t.done.0.unwrap(), t.done.1.unwrap())
}
