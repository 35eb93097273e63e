//! Channel endpoints of either backend behind one interface.
use crate::stream::{block_on, block_on_until, Mc};
use crossmist::{asynchronous, Object};
use std::io::Result;
use std::os::fd::{AsRawFd, RawFd};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Be {
    Sync,
    Async,
}
pub const BES: [Be; 2] = [Be::Sync, Be::Async];
pub const BE_PAIRS: [(Be, Be); 4] = [(Be::Sync, Be::Sync), (Be::Async, Be::Async), (Be::Sync, Be::Async), (Be::Async, Be::Sync)];

pub enum Tx<T: Object> {
    S(crossmist::Sender<T>),
    A(asynchronous::Sender<Mc, T>),
}
pub enum Rx<T: Object> {
    S(crossmist::Receiver<T>),
    A(asynchronous::Receiver<Mc, T>),
}
pub enum Dx<S: Object, R: Object> {
    S(crossmist::Duplex<S, R>),
    A(asynchronous::Duplex<Mc, S, R>),
}

impl<T: Object> Tx<T> {
    pub fn send(&mut self, v: &T) -> Result<()> {
        match self {
            Tx::S(s) => s.send(v),
            Tx::A(s) => block_on(s.send(v)),
        }
    }
    /// None if abandoned. Blocking endpoints cannot be abandoned.
    pub fn send_until(&mut self, v: &T, abandon: impl FnMut(usize) -> bool) -> Option<Result<()>> {
        match self {
            Tx::S(s) => Some(s.send(v)),
            Tx::A(s) => block_on_until(s.send(v), abandon),
        }
    }
    pub fn fd(&self) -> RawFd {
        match self {
            Tx::S(s) => s.as_raw_fd(),
            Tx::A(s) => s.as_raw_fd(),
        }
    }
}

impl<T: Object> Rx<T> {
    pub fn recv(&mut self) -> Result<Option<T>> {
        match self {
            Rx::S(s) => s.recv(),
            Rx::A(s) => block_on(s.recv()),
        }
    }
    pub fn recv_until(&mut self, abandon: impl FnMut(usize) -> bool) -> Option<Result<Option<T>>> {
        match self {
            Rx::S(s) => Some(s.recv()),
            Rx::A(s) => block_on_until(s.recv(), abandon),
        }
    }
    pub fn fd(&self) -> RawFd {
        match self {
            Rx::S(s) => s.as_raw_fd(),
            Rx::A(s) => s.as_raw_fd(),
        }
    }
}

impl<S: Object, R: Object> Dx<S, R> {
    pub fn send(&mut self, v: &S) -> Result<()> {
        match self {
            Dx::S(s) => s.send(v),
            Dx::A(s) => block_on(s.send(v)),
        }
    }
    pub fn recv(&mut self) -> Result<Option<R>> {
        match self {
            Dx::S(s) => s.recv(),
            Dx::A(s) => block_on(s.recv()),
        }
    }
    pub fn recv_until(&mut self, abandon: impl FnMut(usize) -> bool) -> Option<Result<Option<R>>> {
        match self {
            Dx::S(s) => Some(s.recv()),
            Dx::A(s) => block_on_until(s.recv(), abandon),
        }
    }
    pub fn send_until(&mut self, v: &S, abandon: impl FnMut(usize) -> bool) -> Option<Result<()>> {
        match self {
            Dx::S(s) => Some(s.send(v)),
            Dx::A(s) => block_on_until(s.send(v), abandon),
        }
    }
    pub fn request(&mut self, v: &S) -> Result<R> {
        match self {
            Dx::S(s) => s.request(v),
            Dx::A(s) => block_on(s.request(v)),
        }
    }
    pub fn fd(&self) -> RawFd {
        match self {
            Dx::S(s) => s.as_raw_fd(),
            Dx::A(s) => s.as_raw_fd(),
        }
    }
    pub fn into_tx(self) -> Tx<S> {
        match self {
            Dx::S(s) => Tx::S(s.into_sender()),
            Dx::A(s) => Tx::A(s.into_sender()),
        }
    }
    pub fn into_rx(self) -> Rx<R> {
        match self {
            Dx::S(s) => Rx::S(s.into_receiver()),
            Dx::A(s) => Rx::A(s.into_receiver()),
        }
    }
}

/// SO_SNDBUF value that lets exactly one full packet be in flight.
pub const TIGHT: i32 = 8300;

pub fn set_sndbuf(fd: RawFd, v: i32) {
    if v > 0 {
        unsafe {
            libc::setsockopt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, &v as *const i32 as *const _, 4);
        }
    }
}

pub fn channel<T: Object>(be: (Be, Be), sndbuf: i32) -> (Tx<T>, Rx<T>) {
    try_channel(be, sndbuf).expect("channel")
}

/// Creating the channel or converting its ends may fail under injected faults.
pub fn try_channel<T: Object>(be: (Be, Be), sndbuf: i32) -> Result<(Tx<T>, Rx<T>)> {
    let (tx, rx) = if be == (Be::Async, Be::Async) {
        let (tx, rx) = asynchronous::channel::<Mc, T>()?;
        (Tx::A(tx), Rx::A(rx))
    } else {
        let (tx, rx) = crossmist::channel::<T>()?;
        (
            if be.0 == Be::Sync { Tx::S(tx) } else { Tx::A(tx.try_into()?) },
            if be.1 == Be::Sync { Rx::S(rx) } else { Rx::A(rx.try_into()?) },
        )
    };
    set_sndbuf(tx.fd(), sndbuf);
    Ok((tx, rx))
}

pub fn duplex<A: Object, B: Object>(be: (Be, Be), sndbuf: i32) -> (Dx<A, B>, Dx<B, A>) {
    try_duplex(be, sndbuf).expect("duplex")
}

#[allow(clippy::type_complexity)]
pub fn try_duplex<A: Object, B: Object>(be: (Be, Be), sndbuf: i32) -> Result<(Dx<A, B>, Dx<B, A>)> {
    let (x, y) = if be == (Be::Async, Be::Async) {
        let (x, y) = asynchronous::duplex::<Mc, A, B>()?;
        (Dx::A(x), Dx::A(y))
    } else {
        let (x, y) = crossmist::duplex::<A, B>()?;
        (
            if be.0 == Be::Sync { Dx::S(x) } else { Dx::A(x.try_into()?) },
            if be.1 == Be::Sync { Dx::S(y) } else { Dx::A(y.try_into()?) },
        )
    };
    set_sndbuf(x.fd(), sndbuf);
    set_sndbuf(y.fd(), sndbuf);
    Ok((x, y))
}
