//! An asynchronous stream without a runtime, and an executor for it: a future waits by asking the
//! cooperative scheduler to wait for its descriptor.
use crossmist::asynchronous::AsyncStream;
use crossmist::Object;
use std::cell::Cell;
use std::future::Future;
use std::io::{ErrorKind, Result};
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, RawFd};
use std::os::unix::net::UnixStream;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[derive(Debug, Object)]
pub struct Mc(UnixStream);

thread_local! {
    static INTEREST: Cell<(RawFd, i16)> = const { Cell::new((-1, 0)) };
}

unsafe impl AsyncStream for Mc {
    fn try_new(stream: UnixStream) -> Result<Self> {
        Ok(Mc(stream))
    }
    fn as_handle(&self) -> BorrowedFd<'_> {
        self.0.as_fd()
    }
    fn as_raw_handle(&self) -> RawFd {
        self.0.as_raw_fd()
    }
    const IS_BLOCKING: bool = false;
    async fn blocking_write<T>(&self, mut f: impl FnMut() -> Result<T> + Send) -> Result<T> {
        let fd = self.0.as_raw_fd();
        std::future::poll_fn(move |_| match f() {
            Err(e) if e.kind() == ErrorKind::WouldBlock => {
                INTEREST.set((fd, libc::POLLOUT));
                Poll::Pending
            }
            r => Poll::Ready(r),
        })
        .await
    }
    async fn blocking_read<T>(&self, mut f: impl FnMut() -> Result<T> + Send) -> Result<T> {
        let fd = self.0.as_raw_fd();
        std::future::poll_fn(move |_| match f() {
            Err(e) if e.kind() == ErrorKind::WouldBlock => {
                INTEREST.set((fd, libc::POLLIN));
                Poll::Pending
            }
            r => Poll::Ready(r),
        })
        .await
    }
}

pub fn noop_waker() -> Waker {
    const VTABLE: RawWakerVTable = RawWakerVTable::new(|_| RAW, |_| {}, |_| {}, |_| {});
    const RAW: RawWaker = RawWaker::new(std::ptr::null(), &VTABLE);
    unsafe { Waker::from_raw(RAW) }
}

/// Drive a future of `Mc` endpoints to completion, waiting via the scheduler.
pub fn block_on<F: Future>(f: F) -> F::Output {
    block_on_until(f, |_| false).unwrap()
}

/// Like `block_on`, but before waiting for the n-th time ask `abandon(n)` whether to drop the future.
pub fn block_on_until<F: Future>(f: F, mut abandon: impl FnMut(usize) -> bool) -> Option<F::Output> {
    let waker = noop_waker();
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    for n in 0.. {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(r) => return Some(r),
            Poll::Pending => {
                if abandon(n) {
                    return None;
                }
                let (fd, ev) = INTEREST.get();
                crate::sys::uncontrolled(|| crate::sched::wait_fd(fd, ev));
            }
        }
    }
    unreachable!()
}
