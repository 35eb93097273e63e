//! Stateless depth-first exploration of choice sequences.
//!
//! An execution asks for choices; the explorer replays a prefix and takes 0 afterwards, then
//! backtracks over the last choice that still has alternatives, until the tree is exhausted.
//! `choose` branches freely; `deviate` branches only while the deviation budget lasts.
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

pub const MAX_TRACE: usize = 8192;

/// Progress of a worker, in memory shared with the supervisor.
#[repr(C)]
pub struct Slot {
    pub scenario: AtomicU64, // index + 1, 0 if idle
    pub executions: AtomicU64,
    pub len: AtomicU32,
    pub trace: [AtomicU32; MAX_TRACE],
}

pub static SLOT: AtomicPtr<Slot> = AtomicPtr::new(std::ptr::null_mut());

struct Exec {
    prefix: Vec<u32>,
    trace: Vec<(u32, u32)>,
    budget: u32,
    used: u32,
}

static CUR: Mutex<Option<Exec>> = Mutex::new(None);

fn with<R>(f: impl FnOnce(&mut Exec) -> R) -> R {
    crate::sys::uncontrolled(|| {
        let mut g = CUR.lock().unwrap_or_else(|e| e.into_inner());
        f(g.as_mut().expect("choice made outside of an execution"))
    })
}

fn take(e: &mut Exec, n: u32) -> u32 {
    let i = e.trace.len();
    let c = e.prefix.get(i).copied().unwrap_or(0);
    if c >= n {
        crate::run::die(&format!("replay divergence: choice {c} of {n} at position {i}"));
    }
    e.trace.push((c, n));
    let slot = SLOT.load(Relaxed);
    if !slot.is_null() && i < MAX_TRACE {
        unsafe {
            (*slot).trace[i].store(c, Relaxed);
            (*slot).len.store(i as u32 + 1, Relaxed);
        }
    }
    c
}

/// Branch over `0..n`.
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    with(|e| take(e, n as u32)) as usize
}

/// Branch over `0..n`, where anything but 0 is a deviation.
pub fn deviate(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    with(|e| {
        if e.used >= e.budget {
            return 0;
        }
        let c = take(e, n as u32);
        if c != 0 {
            e.used += 1;
        }
        c
    }) as usize
}

/// Whether an execution is in progress.
pub fn active() -> bool {
    crate::sys::uncontrolled(|| CUR.lock().unwrap_or_else(|e| e.into_inner()).is_some())
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: u64,
    /// Choices made, i.e. edges of the executions walked.
    pub steps: u64,
    /// Nodes of the choice tree visited for the first time.
    pub nodes: u64,
    pub max_depth: u64,
    pub complete: bool,
}

/// Run one execution with the given prefix. Returns the full trace and the result.
pub fn run_one<R>(prefix: &[u32], budget: u32, f: impl FnOnce() -> R) -> (Vec<(u32, u32)>, R) {
    let slot = SLOT.load(Relaxed);
    if !slot.is_null() {
        unsafe {
            (*slot).len.store(0, Relaxed);
            for (i, c) in prefix.iter().enumerate().take(MAX_TRACE) {
                (*slot).trace[i].store(*c, Relaxed);
            }
            (*slot).len.store(prefix.len().min(MAX_TRACE) as u32, Relaxed);
        }
    }
    *CUR.lock().unwrap_or_else(|e| e.into_inner()) =
        Some(Exec { prefix: prefix.to_vec(), trace: Vec::new(), budget, used: 0 });
    let r = f();
    let e = CUR.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
    if e.trace.len() < e.prefix.len() {
        crate::run::die("replay divergence: execution ended before the prefix did");
    }
    if !slot.is_null() {
        unsafe { (*slot).executions.fetch_add(1, Relaxed) };
    }
    (e.trace, r)
}

/// The prefix of the next execution in depth-first order.
pub fn next_prefix(trace: &[(u32, u32)]) -> Option<Vec<u32>> {
    let i = trace.iter().rposition(|&(c, n)| c + 1 < n)?;
    let mut p: Vec<u32> = trace[..i].iter().map(|&(c, _)| c).collect();
    p.push(trace[i].0 + 1);
    Some(p)
}
