//! Who owns what: an allocator that knows the blocks of the current execution, and values that
//! know whether they are alive.
use crossmist::{Deserializer, NonTrivialObject, Serializer};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

pub struct Tracker;

#[derive(Clone, Copy, PartialEq)]
enum State {
    Empty,
    Live,
    Freed,
}
#[derive(Clone, Copy)]
struct Block {
    ptr: usize,
    size: usize,
    align: usize,
    state: State,
}
const SLOTS: usize = 1 << 14;
const POISON: u8 = 0xdb;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    None,
    FreedTwice,
    WrongLayout,
    WrittenAfterFree,
    DroppedTwice,
    DroppedNever,
    Garbage,
}

thread_local! {
    static TABLE: Cell<*mut Block> = const { Cell::new(std::ptr::null_mut()) };
    static USED: Cell<usize> = const { Cell::new(0) };
    /// Blocks allocated now belong to the execution.
    static COUNT: Cell<bool> = const { Cell::new(false) };
    static FAULT: Cell<Fault> = const { Cell::new(Fault::None) };
}

fn fault(f: Fault) {
    if FAULT.get() == Fault::None {
        FAULT.set(f);
    }
}

/// The entry of a block, or the one to put it into.
unsafe fn find(table: *mut Block, ptr: usize) -> *mut Block {
    let mut i = (ptr >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40;
    loop {
        let b = table.add(i % SLOTS);
        if (*b).state == State::Empty || (*b).ptr == ptr {
            return b;
        }
        i += 1;
    }
}

unsafe impl GlobalAlloc for Tracker {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        let table = TABLE.get();
        if !table.is_null() && COUNT.get() && !p.is_null() {
            if USED.get() > SLOTS / 2 {
                libc::abort();
            }
            USED.set(USED.get() + 1);
            // A block that is freed stays reserved until the end, so the address is new
            *find(table, p as usize) = Block { ptr: p as usize, size: l.size(), align: l.align(), state: State::Live };
            p.write_bytes(POISON, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let table = TABLE.get();
        if !table.is_null() {
            let b = find(table, p as usize);
            match (*b).state {
                State::Empty => {}
                State::Freed => return fault(Fault::FreedTwice),
                State::Live => {
                    if ((*b).size, (*b).align) != (l.size(), l.align()) {
                        fault(Fault::WrongLayout);
                    }
                    (*b).state = State::Freed;
                    p.write_bytes(POISON, (*b).size);
                    return;
                }
            }
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        if TABLE.get().is_null() {
            return System.realloc(p, l, size);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, size.min(l.size()));
            self.dealloc(p, l);
        }
        q
    }
}

pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let was = COUNT.replace(false);
    let r = f();
    COUNT.set(was);
    r
}

thread_local! {
    /// Choices of the rehearsal, to be repeated.
    static PLAN: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
    static NEXT: Cell<usize> = const { Cell::new(usize::MAX) };
}

pub fn pick(n: usize) -> usize {
    untracked(|| match NEXT.get() {
        usize::MAX => {
            let c = mc::choose(n);
            PLAN.with(|p| p.borrow_mut().push(c));
            c
        }
        i => {
            NEXT.set(i + 1);
            PLAN.with(|p| p.borrow()[i])
        }
    })
}

/// Run `f` twice: once to warm up whatever is initialized lazily, and then watched.
/// `leaks`: whether leaking is allowed (after a panic in the middle of something).
pub fn owned(f: impl Fn() -> Result<(String, bool), String>) -> Result<String, String> {
    PLAN.with(|p| p.borrow_mut().clear());
    NEXT.set(usize::MAX);
    reset();
    f()?;
    NEXT.set(0);
    reset();
    FAULT.set(Fault::None);
    USED.set(0);
    unsafe {
        let layout = Layout::array::<Block>(SLOTS).unwrap();
        let table = System.alloc_zeroed(layout) as *mut Block;
        for i in 0..SLOTS {
            (*table.add(i)).state = State::Empty;
        }
        TABLE.set(table);
        COUNT.set(true);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&f));
        COUNT.set(false);
        let mut mine = 0; // what the result holds
        let r = match r {
            Ok(Ok((s, leaks))) => {
                mine = (s.capacity() > 0) as usize;
                Ok((s, leaks))
            }
            Ok(Err(e)) => Err(e),
            Err(p) => Err(format!("panic: {}", mc::run::panic_text(&p))),
        };
        let mut live = 0;
        TABLE.set(std::ptr::null_mut());
        for i in 0..SLOTS {
            let b = *table.add(i);
            match b.state {
                State::Empty => {}
                State::Live => live += 1,
                State::Freed => {
                    let bytes = std::slice::from_raw_parts(b.ptr as *const u8, b.size);
                    if bytes.iter().any(|x| *x != POISON) {
                        fault(Fault::WrittenAfterFree);
                    }
                    System.dealloc(b.ptr as *mut u8, Layout::from_size_align_unchecked(b.size, b.align));
                }
            }
        }
        System.dealloc(table as *mut u8, layout);
        let (s, leaks) = r?;
        if !leaks && FAULT.get() == Fault::None && alive() > 0 {
            fault(Fault::DroppedNever);
        }
        match FAULT.get() {
            Fault::None => {}
            Fault::FreedTwice => return Err(format!("memory was freed twice ({s})")),
            Fault::WrongLayout => return Err(format!("memory was freed with another size or alignment than it was allocated with ({s})")),
            Fault::WrittenAfterFree => return Err(format!("memory was written to after it was freed ({s})")),
            Fault::DroppedTwice => return Err(format!("a value was dropped twice ({s})")),
            Fault::DroppedNever => return Err(format!("a value was never dropped ({s})")),
            Fault::Garbage => return Err(format!("something that is not a value was used as one ({s})")),
        }
        if !leaks && live > mine {
            return Err(format!("memory was leaked: {} blocks ({s})", live - mine));
        }
        Ok(s)
    }
}

const TOKS: usize = 4096;
thread_local! {
    static LIVE: RefCell<[u8; TOKS]> = const { RefCell::new([0; TOKS]) };
    static COUNTER: Cell<usize> = const { Cell::new(0) };
    static FAIL_AT: Cell<usize> = const { Cell::new(0) };
    static FAIL_BY_PANIC: Cell<bool> = const { Cell::new(false) };
    pub static PANICKED: Cell<bool> = const { Cell::new(false) };
    static KEY: Cell<u64> = const { Cell::new(0) };
}

fn reset() {
    LIVE.with(|l| *l.borrow_mut() = [0; TOKS]);
    COUNTER.set(0);
    FAIL_AT.set(0);
    KEY.set(0);
    PANICKED.set(false);
}
pub fn alive() -> usize {
    LIVE.with(|l| l.borrow()[..COUNTER.get()].iter().filter(|s| **s == 1).count())
}
/// Let the n-th (from one) deserialization of a `Tok` fail.
pub fn fail_at(n: usize, by_panic: bool) {
    FAIL_AT.set(n);
    FAIL_BY_PANIC.set(by_panic);
}
pub fn failed() -> bool {
    FAIL_AT.get() == 0
}

/// A value with a heap allocation of its own.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Tok {
    pub key: u64,
    text: String,
    id: Id,
}
#[derive(Debug)]
struct Id(usize);
impl PartialEq for Id {
    fn eq(&self, _: &Id) -> bool {
        true
    }
}
impl Eq for Id {}
impl PartialOrd for Id {
    fn partial_cmp(&self, o: &Id) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Id {
    fn cmp(&self, _: &Id) -> std::cmp::Ordering {
        std::cmp::Ordering::Equal
    }
}
impl std::hash::Hash for Id {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}

impl Tok {
    pub fn new() -> Tok {
        KEY.set(KEY.get() + 1);
        Tok::of(KEY.get())
    }
    fn of(key: u64) -> Tok {
        let id = COUNTER.get();
        assert!(id < TOKS);
        COUNTER.set(id + 1);
        LIVE.with(|l| l.borrow_mut()[id] = 1);
        Tok { key, text: format!("token {key}"), id: Id(id) }
    }
    pub fn check(&self) {
        let good = self.id.0 < COUNTER.get() && LIVE.with(|l| l.borrow()[self.id.0] == 1);
        if !good || !self.text.starts_with("token") {
            fault(Fault::Garbage);
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.id.0 >= COUNTER.get() {
            return fault(Fault::Garbage);
        }
        LIVE.with(|l| {
            let s = &mut l.borrow_mut()[self.id.0];
            if *s != 1 {
                fault(Fault::DroppedTwice);
            }
            *s = 2;
        });
    }
}
unsafe impl NonTrivialObject for Tok {
    fn serialize_self_non_trivial<'a>(&'a self, s: &mut Serializer<'a>) {
        self.check();
        s.serialize(&self.key);
    }
    unsafe fn deserialize_self_non_trivial(d: &mut Deserializer) -> std::io::Result<Self> {
        let key = d.deserialize()?;
        let n = FAIL_AT.get();
        if n > 0 {
            FAIL_AT.set(n - 1);
            if n == 1 {
                if FAIL_BY_PANIC.get() {
                    PANICKED.set(true);
                    std::panic::resume_unwind(Box::new(()));
                }
                return Err(std::io::Error::from_raw_os_error(libc::EIO));
            }
        }
        Ok(Tok::of(key))
    }
}
